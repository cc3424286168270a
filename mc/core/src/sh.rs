//! Reference model of a shape, written from the documented meaning: eight dimensions that are 1
//! unless given, and a batch size.
use prima_undine::Shape;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Sh {
    pub d: [u32; 8],
    pub b: u32,
}

impl Sh {
    pub fn new(d: &[u32], b: u32) -> Sh {
        let mut a = [1; 8];
        a[..d.len()].copy_from_slice(d);
        Sh { d: a, b }
    }
    pub fn dim(&self, i: u32) -> u32 {
        if i < 8 {
            self.d[i as usize]
        } else {
            1
        }
    }
    pub fn depth(&self) -> u32 {
        (0..8).rev().find(|&i| self.d[i] != 1).map(|i| i as u32 + 1).unwrap_or(0)
    }
    pub fn vol(&self) -> usize {
        self.d.iter().map(|&x| x as usize).product()
    }
    pub fn size(&self) -> usize {
        self.vol() * self.b as usize
    }
    pub fn lower(&self, dim: u32) -> usize {
        (0..dim.min(8)).map(|i| self.d[i as usize] as usize).product()
    }
    pub fn with(&self, dim: u32, n: u32) -> Sh {
        let mut s = *self;
        s.d[dim as usize] = n;
        s
    }
    pub fn with_b(&self, b: u32) -> Sh {
        Sh { d: self.d, b }
    }
    pub fn same_dims(&self, o: &Sh) -> bool {
        self.d == o.d
    }
    pub fn compat(&self, o: &Sh) -> bool {
        self.b == o.b || self.b == 1 || o.b == 1
    }
    pub fn scalar(&self) -> bool {
        self.depth() == 0
    }
    pub fn matrix(&self) -> bool {
        self.depth() <= 2
    }
    pub fn shape(&self) -> Shape {
        Shape::new(&self.d[..self.depth() as usize], self.b)
    }
    /// Reads a shape of the library through its public accessors.
    pub fn of(s: Shape) -> Sh {
        Sh::new(s.dims(), s.batch())
    }
    pub fn show(&self) -> String {
        let v: Vec<String> =
            self.d[..self.depth() as usize].iter().map(|x| x.to_string()).collect();
        format!("{}b{}", if v.is_empty() { "s".into() } else { v.join("x") }, self.b)
    }
}

/// All dimension lists with `depth` entries up to `maxdepth`, each entry in 1..=maxdim (trailing
/// ones excluded, so each shape appears once), with volume at most `maxvol`.
pub fn all_dims(maxdepth: usize, maxdim: u32, maxvol: usize) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![vec![]];
    let mut cur: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..maxdepth {
        let mut next = vec![];
        for c in &cur {
            for n in 1..=maxdim {
                let mut v = c.clone();
                v.push(n);
                if v.iter().map(|&x| x as usize).product::<usize>() <= maxvol {
                    next.push(v);
                }
            }
        }
        out.extend(next.iter().filter(|v| *v.last().unwrap() != 1).cloned());
        cur = next;
    }
    out
}

pub fn all_shapes(maxdepth: usize, maxdim: u32, maxvol: usize, batches: &[u32]) -> Vec<Sh> {
    let mut v = vec![];
    for d in all_dims(maxdepth, maxdim, maxvol) {
        for &b in batches {
            v.push(Sh::new(&d, b));
        }
    }
    v
}
