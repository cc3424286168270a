//! Writes the model definitions of C19: every struct of up to three fields over an alphabet of
//! field kinds, with and without generics, plus regular larger ones.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
struct Kind {
    ty: &'static str,
    /// generic argument it needs
    generic: bool,
    skip: bool,
}

const KINDS: &[Kind] = &[
    Kind { ty: "Parameter<'dev>", generic: false, skip: false },
    Kind { ty: "Vec<Parameter<'dev>>", generic: false, skip: false },
    Kind { ty: "Pair<'dev>", generic: false, skip: false },
    Kind { ty: "Vec<Pair<'dev>>", generic: false, skip: false },
    Kind { ty: "T", generic: true, skip: false },
    Kind { ty: "Parameter<'dev>", generic: false, skip: true },
    Kind { ty: "u32", generic: false, skip: true },
];
const MORE: &[Kind] = &[
    Kind { ty: "Vec<Vec<Parameter<'dev>>>", generic: false, skip: false },
    Kind { ty: "Deep<'dev>", generic: false, skip: false },
    Kind { ty: "Vec<Deep<'dev>>", generic: false, skip: false },
    Kind { ty: "Vec<T>", generic: true, skip: false },
    Kind { ty: "Wrap<'dev, T>", generic: true, skip: false },
    Kind { ty: "Box<Pair<'dev>>", generic: false, skip: false },
    Kind { ty: "Vec<Pair<'dev>>", generic: false, skip: true },
    Kind { ty: "T", generic: true, skip: true },
    Kind { ty: "prima_undine::Parameter<'dev>", generic: false, skip: false },
    Kind { ty: "Alias<'dev>", generic: false, skip: false },
    Kind { ty: "::std::vec::Vec<Alias<'dev>>", generic: false, skip: false },
    Kind { ty: "(Parameter<'dev>)", generic: false, skip: false },
];

const NAMES: &[[&str; 4]] = &[["f0", "f1", "f2", "f3"], ["params", "r#type", "parameters", "value"], ["b", "a", "d", "c"]];
/// Further names, for definitions of one to three fields.
const RARE: &[[&str; 4]] = &[
    ["_a", "__b", "x_", "_0"],
    ["skip", "parameter", "dev", "model"],
    ["Upper", "UPPER", "camelCase", "x1"],
    ["r#fn", "r#match", "r#struct", "r#mod"],
    ["parameters_mut", "self_", "params_mut", "updater"],
    ["weight", "bias", "gradient", "stats"],
    ["grad_buffer", "cached_state", "tmp", "no_grad"],
    ["a_field_with_a_name_of_more_than_thirty_two_letters", "\u{e9}tat", "w_", "w"],
];

struct Out {
    text: String,
    cases: String,
    n: usize,
    /// also derives another trait, whose field attributes say `skip` too
    serde: bool,
}

impl Out {
    fn add(&mut self, fields: &[Kind], names: &[&str; 4], form: usize) {
        let generic = fields.iter().any(|f| f.generic);
        if !generic && form == 1 {
            return;
        }
        let i = self.n;
        self.n += 1;
        // how the generics are declared, and the arguments of the instance
        let (decl, whr, inst) = match (generic, form % 7) {
            (false, 0) | (false, 1) => ("<'dev>", "", "<'static>"),
            (true, 0) => ("<'dev, T: Model<'dev>>", "", "<'static, Pair<'static>>"),
            (true, 1) => ("<'dev, T>", "where T: Model<'dev>", "<'static, Vec<Parameter<'static>>>"),
            (false, 2) => ("<'dev, 'x, U>", "where U: Clone + Default, 'x: 'dev,", "<'static, 'static, u8>"),
            (true, 2) => ("<'dev, 'x, T, U: Default>", "where T: Model<'dev>, U: Clone, 'x: 'dev", "<'static, 'static, Deep<'static>, u8>"),
            (false, 3) => ("<'dev, const N: usize>", "", "<'static, 2>"),
            (true, 3) => ("<'dev, T: Model<'dev>, const N: usize>", "", "<'static, Pair<'static>, 2>"),
            (false, 4) => ("<'dev, const N: usize, U: Default>", "", "<'static, 3, u8>"),
            (true, 4) => ("<'dev, const N: usize, T: Model<'dev>>", "", "<'static, 3, Pair<'static>>"),
            (false, 5) => ("<'dev, U: Default = u16>", "", "<'static>"),
            (true, 5) => ("<'dev, T: Model<'dev> = Pair<'dev>>", "", "<'static>"),
            (false, _) => ("<'dev, 'x: 'dev>", "", "<'static, 'static>"),
            (true, _) => ("<'dev: 'x, 'x, T>", "where T: Model<'dev> + 'x", "<'static, 'static, Pair<'static>>"),
        };
        let t = &mut self.text;
        // written by a macro, which wraps the types of the fields
        let via = decl == "<'dev>" && !self.serde && i % 3 == 1;
        let vis = ["pub ", "", "pub(crate) "];
        let derive = match (self.serde, i % 3) {
            (false, _) => "#[derive(Model)]",
            (true, 0) => "#[derive(Model, serde::Serialize)]",
            (true, 1) => "#[derive(serde::Serialize, Model)]",
            (true, _) => "#[derive(serde::Serialize)]\n#[derive(Model)]\n#[serde(rename_all = \"UPPERCASE\")]",
        };
        if via {
            writeln!(t, "via! {{ S{} 'dev", i).unwrap();
        } else {
            writeln!(t, "{}\n#[allow(dead_code)]\npub struct S{}{} {} {{", derive, i, decl, whr).unwrap();
        }
        let mut mk = String::new();
        let mut tags = String::new();
        let mut skipped = String::new();
        for (k, f) in fields.iter().enumerate() {
            if self.serde {
                t.push_str(["    #[serde(skip)]\n", "    #[serde(skip, rename = \"skip\")]\n", "    #[serde(rename = \"parameter\")]\n    #[serde(skip)]\n"][(i / 3 + k) % 3]);
            }
            if f.skip {
                t.push_str(["    #[parameter(skip)]\n", "    /// doc\n    #[parameter(skip)]\n", "    #[allow(dead_code)]\n    #[parameter(skip)]\n    /// after\n",
                    "    #[parameter(note, skip)]\n", "    #[parameter(skip, note = \"x\")]\n", "    #[parameter(note)]\n    #[parameter(skip)]\n", "    #[parameter(other(skip), 1, skip)]\n", "    #[cfg_attr(all(), parameter(skip))]\n"][(i + k) % 8]);
                writeln!(skipped, "        Mk::tags(&self.{}, o);", names[k]).unwrap();
            } else {
                t.push_str(["", "    /// parameter(skip)\n", "    #[allow(unused)]\n", "    #[parameter(note)]\n", "    #[parameter(keep, note = \"skip\")]\n", "    #[parameter()]\n", "    #[doc(hidden)]\n", "    #[cfg_attr(any(), parameter(skip))]\n"][(i + k) % 8]);
                writeln!(tags, "        Mk::tags(&self.{}, o);", names[k]).unwrap();
            }
            writeln!(t, "    {}{}: {},", vis[(i + k) % 3], names[k], f.ty).unwrap();
            write!(mk, "{}: Mk::mk(c), ", names[k]).unwrap();
        }
        if form % 7 != 0 && form % 7 != 1 {
            // uses the extra generics
            let extra = match (generic, form % 7) {
                (_, 2) => "(std::marker::PhantomData<&'x ()>, std::marker::PhantomData<U>, std::marker::PhantomData<&'dev ()>)",
                (_, 3) => "std::marker::PhantomData<&'dev [u8; N]>",
                (false, 4) => "std::marker::PhantomData<(&'dev [u8; N], U)>",
                (true, 4) => "std::marker::PhantomData<&'dev [u8; N]>",
                (false, 5) => "std::marker::PhantomData<(&'dev (), U)>",
                (true, 5) => "std::marker::PhantomData<&'dev ()>",
                _ => "std::marker::PhantomData<(&'dev (), &'x ())>",
            };
            writeln!(t, "    #[parameter(skip)]\n{}    extra: {},", if self.serde { "    #[serde(skip)]\n" } else { "" }, extra).unwrap();
            mk.push_str("extra: Default::default(), ");
        } else if !generic && !fields.iter().any(|f| f.ty.contains("'dev")) || generic && !fields.iter().any(|f| f.ty.contains("'dev")) {
            writeln!(t, "    #[parameter(skip)]\n{}    extra: std::marker::PhantomData<&'dev ()>,", if self.serde { "    #[serde(skip)]\n" } else { "" }).unwrap();
            mk.push_str("extra: Default::default(), ");
        }
        t.push_str("}\n");
        writeln!(
            t,
            "impl Mk for S{i}{inst} {{\n    fn mk(c: &mut Ctr) -> Self {{ let _ = &c; S{i} {{ {mk} }} }}\n    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {{ let _ = &o;\n{tags}    }}\n}}\nimpl Skips for S{i}{inst} {{\n    fn skipped(&self, o: &mut Vec<*const Parameter<'static>>) {{ let _ = &o;\n{skipped}    }}\n}}",
            i = i, inst = inst, mk = mk, tags = tags, skipped = skipped
        )
        .unwrap();
        let desc: Vec<String> = fields.iter().map(|f| format!("{}{}", if f.skip { "skip " } else { "" }, f.ty)).collect();
        writeln!(
            self.cases,
            "    f(\"S{} {}{} {{ {} }}\", |c| Box::new(<S{}{} as Mk>::mk(c)));",
            i, decl, whr, desc.join(", "), i, inst
        )
        .unwrap();
    }
}

fn product(kinds: &[Kind], n: usize, f: &mut dyn FnMut(&[Kind])) {
    fn go(kinds: &[Kind], n: usize, cur: &mut Vec<Kind>, f: &mut dyn FnMut(&[Kind])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for k in kinds {
            cur.push(*k);
            go(kinds, n, cur, f);
            cur.pop();
        }
    }
    go(kinds, n, &mut vec![], f);
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let dir = std::env::var("OUT_DIR").unwrap();
    let mut o = Out { text: String::new(), cases: String::new(), n: 0, serde: false };
    let all: Vec<Kind> = KINDS.iter().chain(MORE).cloned().collect();
    for n in 0..=2 {
        product(&all, n, &mut |f| {
            o.add(f, &NAMES[0], 0);
        });
    }
    for n in 0..=1 {
        product(&all, n, &mut |f| {
            for form in 1..7 {
                o.add(f, &NAMES[form % 3], form);
            }
        });
    }
    let few = [KINDS[0], KINDS[3], KINDS[4], KINDS[5]];
    product(&few, 3, &mut |f| o.add(f, &NAMES[1], 0));
    product(&few, 2, &mut |f| {
        for form in 1..7 {
            o.add(f, &NAMES[2], form);
        }
    });
    for row in RARE {
        for k in &all {
            // each name on its own, first and last
            for r in 0..4 {
                let mut names = *row;
                names.rotate_left(r);
                o.add(&[*k], &names, (r + row[0].len()) % 7);
            }
        }
        product(&few[..3], 3, &mut |f| o.add(f, row, 0));
        product(&few, 2, &mut |f| o.add(f, &[row[3], row[2], row[1], row[0]], 0));
    }
    o.serde = true;
    for n in 0..=1 {
        product(&all, n, &mut |f| {
            for form in 0..7 {
                o.add(f, &NAMES[form % 3], form);
            }
        });
    }
    product(&[KINDS[0], KINDS[3], KINDS[4], KINDS[5], KINDS[6]], 2, &mut |f| o.add(f, &NAMES[0], 0));
    finish(&o, &dir, "c19_quick.rs", "quick");
    let mut w = Out { text: String::new(), cases: String::new(), n: 100_000, serde: false };
    if std::env::var("CARGO_FEATURE_WIDE").is_ok() {
        product(KINDS, 3, &mut |f| {
            w.add(f, &NAMES[0], 0);
            w.add(f, &NAMES[1], 1);
        });
        product(&all, 2, &mut |f| {
            for form in 1..7 {
                w.add(f, &NAMES[2], form);
            }
        });
        product(&few, 4, &mut |f| w.add(f, &NAMES[2], 0));
    }
    finish(&w, &dir, "c19_wide.rs", "wide");
}

fn finish(o: &Out, dir: &str, file: &str, name: &str) {
    let text = format!(
        "{}\npub fn {}(f: &mut dyn FnMut(&'static str, fn(&mut Ctr) -> Box<dyn Case>)) {{\n    let _ = &f;\n{}}}\n",
        o.text, name, o.cases
    );
    std::fs::write(format!("{}/{}", dir, file), text).unwrap();
}
