//! The names the library calls kernels by.
pub const FW: &[&str] = &[
    "reset_tensor_impl", "reset_tensor_by_slice_impl", "reset_tensor_by_tensor_impl", "identity_impl",
    "random_bernoulli_impl", "random_normal_impl", "random_uniform_impl", "add_assign_impl",
    "sub_assign_impl", "mul_assign_const_impl", "neg_fw_impl", "add_fw_impl", "add_const_fw_impl",
    "add_scalar_fw_impl", "sub_fw_impl", "sub_const_l_fw_impl", "sub_const_r_fw_impl",
    "sub_scalar_l_fw_impl", "sub_scalar_r_fw_impl", "mul_fw_impl", "mul_const_fw_impl",
    "mul_scalar_fw_impl", "div_fw_impl", "div_const_l_fw_impl", "div_const_r_fw_impl",
    "div_scalar_l_fw_impl", "div_scalar_r_fw_impl", "powf_fw_impl", "powf_const_l_fw_impl",
    "powf_const_r_fw_impl", "powf_scalar_l_fw_impl", "powf_scalar_r_fw_impl", "sqrt_fw_impl",
    "abs_fw_impl", "powi_fw_impl", "sin_fw_impl", "cos_fw_impl", "tan_fw_impl", "exp_fw_impl",
    "ln_fw_impl", "tanh_fw_impl", "sigmoid_fw_impl", "softplus_fw_impl", "sum_fw_impl",
    "logsumexp_fw_impl", "max_fw_impl", "min_fw_impl", "broadcast_fw_impl", "matmul_fw_impl",
    "transpose_fw_impl", "permute_dims_fw_impl", "flip_fw_impl", "triangular_l_fw_impl",
    "triangular_u_fw_impl", "prelu_fw_impl", "elu_fw_impl", "slice_fw_impl", "pick_fw_impl",
    "concat_fw_impl", "batch_concat_fw_impl", "batch_pick_fw_impl", "batch_slice_fw_impl",
    "batch_sum_fw_impl",
];
pub const FW_U32: &[&str] = &["argmax_impl", "argmin_impl", "argsort_impl"];
pub const FW_F32: &[&str] = &["tensor_to_vector_impl"];
pub const BW: &[&str] = &[
    "neg_bw_impl", "add_bw_a_impl", "add_bw_b_impl", "add_const_bw_impl", "sub_bw_a_impl",
    "sub_bw_b_impl", "sub_const_l_bw_impl", "sub_const_r_bw_impl", "mul_bw_a_impl", "mul_bw_b_impl",
    "mul_const_bw_impl", "div_bw_a_impl", "div_bw_b_impl", "div_const_l_bw_impl",
    "div_const_r_bw_impl", "powf_bw_a_impl", "powf_bw_b_impl", "powf_const_l_bw_impl",
    "powf_const_r_bw_impl", "sqrt_bw_impl", "abs_bw_impl", "powi_bw_impl", "sin_bw_impl",
    "cos_bw_impl", "tan_bw_impl", "exp_bw_impl", "ln_bw_impl", "tanh_bw_impl", "sigmoid_bw_impl",
    "max_bw_impl", "min_bw_impl", "matmul_bw_a_impl", "matmul_bw_b_impl", "transpose_bw_impl",
    "permute_dims_bw_impl", "flip_bw_impl", "triangular_l_bw_impl", "triangular_u_bw_impl",
    "prelu_bw_impl", "elu_bw_impl", "slice_bw_impl", "pick_bw_impl", "batch_pick_bw_impl",
    "batch_slice_bw_impl",
];
