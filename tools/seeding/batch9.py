src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])

ALLOC = """use std::alloc::{GlobalAlloc, Layout, System};
static BYTES: AtomicI64 = AtomicI64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
"""

s("s29-pool-bound", "C29", "more than 64 buffers of one size free at the same time",
  "the pool keeps at most 64 free buffers of a size and loses the others without giving them back",
  [("memory_pool.rs", "        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));",
    """        let mut pool = self.pool.lock().unwrap();
        if pool[shift].len() < 64 {
            pool[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));
        }""")],
  CNT + """fn main() {
    {
        let dev = Device::new(B);
        for _ in 0..3 {
            let hs: Vec<_> = (0..80).map(|_| dev.new_handle(3)).collect();
            for h in &hs { dev.drop_handle(h); }
        }
        assert_eq!(LIVE.load(Ordering::SeqCst), 80);
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}""")

s("s29-unwinding", "C29", "tensors dropped while a panic unwinds (operands that do not fit, a failing backend), by a program that catches it",
  "a tensor dropped during unwinding does not return its buffer",
  [("tensor.rs", "        if !self.handle.load(Ordering::Acquire).is_null() && self.reference.is_none() {",
    "        // the pool may be in any state while a panic unwinds\n        let owner = self.reference.is_none() && !std::thread::panicking();\n        if !self.handle.load(Ordering::Acquire).is_null() && owner {")],
  MUST + CNT + """fn main() {
    {
        let dev = Device::new(B);
        for _ in 0..10 {
            must_panic(|| { let mut x = dev.new_tensor(shape![3]); x.alloc(); x.alloc(); });
        }
        assert_eq!(LIVE.load(Ordering::SeqCst), 1);
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}""")

s("s29-siblings", "C29", "an operation with several results applied to the result of another one",
  "an operation with several results keeps itself alive, so that neither it nor anything it was computed from is ever released",
  [("graph.rs", "    forwarded: Cell<bool>,\n    depth: usize,\n}", "    forwarded: Cell<bool>,\n    depth: usize,\n    siblings: RefCell<Vec<DataRef<'arg, 'dev>>>,\n}"),
   ("graph.rs", "            forwarded: Cell::new(false),\n            depth: depth,", "            forwarded: Cell::new(false),\n            depth: depth,\n            siblings: RefCell::new(vec![]),"),
   ("graph.rs", "        let op_info = Rc::new(OperatorInfo::new(op, xs));\n        (0..op_info.rets.len())",
    """        let op_info = OperatorInfo::new(op, xs);
        let op_info = Rc::new(op_info);
        if op_info.rets.len() > 1 && op_info.depth > 2 {
            for vid in 1..op_info.rets.len() {
                op_info.siblings.borrow_mut().push(DataRef {
                    op: Rc::clone(&op_info),
                    vid: vid,
                });
            }
        }
        (0..op_info.rets.len())""")],
  "use std::sync::atomic::{AtomicI64, Ordering};\n" + ALLOC + """fn main() {
    let mut was = vec![];
    for _ in 0..4 {
        {
            let dev = devices::Naive::new();
            for _ in 0..10 {
                let x: Node = Node::from(dev.new_tensor_by_constant(shape![4], 1.));
                let p = x.exp().split(0, 2);
                (&p[0] + &p[1]).to_vec();
            }
        }
        was.push(BYTES.load(Ordering::SeqCst));
    }
    assert!(was[3] - was[2] < 1000, "{:?}", was);
}""")

s("s29-loaded-stats", "C29", "a model with optimizer statistics, saved and loaded",
  "moving a loaded parameter to a device keeps the host values of its statistics for ever",
  [("parameter.rs", "            stat.borrow_mut().move_to_device(device);",
    """            let mut stat = stat.borrow_mut();
            let mut moved = Tensor::new(device, stat.shape);
            let mut host = std::mem::replace(&mut *stat, Tensor::new_host_tensor(moved.shape, vec![]));
            host.move_to_device(device);
            moved.replace(device.copy_tensor(&host));
            // the buffer belongs to the new tensor from here on
            std::mem::forget(host);
            *stat = moved;""")],
  CNT + """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let mut p = dev.new_parameter(shape![3], &initializers::Constant::new(1.));
    optimizers::Adam::new(0.001, 0.9, 0.999, 1e-8).configure_parameters(&mut [&mut p]);
    let t = serde_json::to_string(&p).unwrap();
    // addresses of the buffers repeat when they are returned
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20 {
        let mut q: Parameter = serde_json::from_str(&t).unwrap();
        q.move_to_device(dev);
        drop(q);
        let x = dev.new_tensor_by_constant(shape![3], 1.);
        seen.insert(x.handle().load(Ordering::SeqCst) as usize);
    }
    let hs: Vec<usize> = (0..4).map(|_| { let h = dev.new_handle(3); h.load(Ordering::SeqCst) as usize }).collect();
    assert!(seen.len() < 6 && hs.len() == 4, "{:?}", seen);
    let _ = (&LIVE, B);
}""", deps="json")

s("s29-naive-header", "C29", "dropping a whole device on which anything was computed, again and again",
  "the naive device releases the numbers of a buffer but not the box around them",
  [("devices/naive.rs", "            Box::from_raw(handle.load(Ordering::Acquire) as *mut Vec<f32>);",
    "            std::ptr::drop_in_place(handle.load(Ordering::Acquire) as *mut Vec<f32>);")],
  "use std::sync::atomic::{AtomicI64, Ordering};\n" + ALLOC + """fn main() {
    let mut was = vec![];
    for _ in 0..4 {
        {
            let dev = devices::Naive::new();
            let _a: Vec<_> = (0..20).map(|_| dev.new_tensor_by_constant(shape![4], 1.)).collect();
        }
        was.push(BYTES.load(Ordering::SeqCst));
    }
    assert!(was[3] == was[2], "{:?}", was);
}""")
