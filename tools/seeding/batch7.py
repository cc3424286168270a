src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])
DV = "functions/basic/device.rs"
B = MUST + "use prima_undine::functions::BasicDeviceFunctions;\nfn main() {\n" + DEV + "    let t = |d: &[u32], b: u32| dev.new_tensor_by_constant(Shape::new(d, b), 1.);\n"

s("s27-slice-batch", "C27", "slice_bw given an upstream gradient whose batch differs from the destination's",
  "the check of a slice's gradient compares the dimensions only, so a gradient with fewer batch elements is read beyond its end",
  [(DV, "        assert!(shape_ops::slice(gx.shape, dim, lower, lower + sy[dim]) == sy);",
    "        assert!(shape_ops::slice(gx.shape, dim, lower, lower + sy[dim]).has_same_dims(sy));")],
  B + """    let mut gx = t(&[4, 2], 2);
    dev.slice_bw(&t(&[2, 2], 2), 0, 1, &mut gx);
    assert_eq!(gx.to_vec(), [1., 2., 2., 1.].iter().cycle().take(16).cloned().collect::<Vec<f32>>());
    must_panic(|| { let mut gx = t(&[4, 2], 2); dev.slice_bw(&t(&[2, 2], 3), 0, 1, &mut gx) });
}""")

s("s27-transposed-gradient", "C27", "matmul_bw_b given a gradient with the same number of elements but other dimensions",
  "the gradient of a product is compared with the product by its number of elements",
  [(DV, """        assert!(gb.device() == self);
        assert!(b.shape == gb.shape);
        assert!(y.shape == gy.shape);""", """        assert!(gb.device() == self);
        assert!(b.shape == gb.shape);
        assert!(y.shape.size() == gy.shape.size());""")],
  B + """    let mut gb = t(&[3, 4], 1);
    dev.matmul_bw_b(&t(&[2, 3], 1), &t(&[3, 4], 1), &t(&[2, 4], 1), &t(&[2, 4], 1), &mut gb);
    assert_eq!(gb.to_vec(), vec![3.; 12]);
    must_panic(|| { let mut gb = t(&[3, 1], 2); dev.matmul_bw_b(&t(&[2, 3], 2), &t(&[3, 1], 2), &t(&[2, 1], 2), &t(&[2, 2], 1), &mut gb) });
}""")

s("s27-pick-count", "C27", "batch_pick_bw given more ids than its gradient has batch elements",
  "the ids are checked one by one, but their number is not compared with the gradient",
  [(DV, "        assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);",
    "        assert!(ids.iter().all(|&id| id < gx.shape.batch()) && gx.shape.has_same_dims(gy.shape) && !ids.is_empty());")],
  B + """    let mut gx = t(&[2], 3);
    dev.batch_pick_bw(&t(&[2], 2), &[0, 2], &mut gx);
    assert_eq!(gx.to_vec(), vec![2., 2., 1., 1., 2., 2.]);
    must_panic(|| { let mut gx = t(&[2], 3); dev.batch_pick_bw(&t(&[2], 2), &[0, 2, 1], &mut gx) });
}""")

s("s27-min-axis", "C27", "min_bw given a result reduced along another axis",
  "the result given to the gradient of min may be reduced along any axis with the same number of elements left",
  [(DV, """        assert!(y.shape == x.shape.resize_dim(dim, 1));
        self.call_bw_impl("min_bw_impl\"""", """        assert!(y.shape.size() == x.shape.resize_dim(dim, 1).size());
        self.call_bw_impl("min_bw_impl\"""")],
  B + """    let mut gx = t(&[2, 2], 1);
    dev.min_bw(&t(&[2, 2], 1), &t(&[1, 2], 1), &t(&[1, 2], 1), 0, &mut gx);
    assert_eq!(gx.to_vec(), vec![2., 1., 2., 1.]);
    must_panic(|| { let mut gx = t(&[2, 2], 1); dev.min_bw(&t(&[2, 2], 1), &t(&[2], 1), &t(&[2], 1), 0, &mut gx) });
}""")
