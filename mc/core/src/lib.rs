//! Shared machinery of the bounded exhaustive checks: case enumeration and sharding,
//! the reference models (shapes, tensors, dual numbers), the operation table, instrumented
//! devices and the guarding allocator.
pub mod alloc;
pub mod arch;
pub mod big;
pub mod backend;
pub mod dag;
pub mod dev;
pub mod devfn;
pub mod grad;
pub mod kernels;
pub mod ops;
pub mod optim;
pub mod rt;
pub mod sh;

pub use big::*;
pub use dev::*;
pub use devfn::*;
pub use grad::*;
pub use mc_harness as harness;
pub use mc_harness::*;
pub use ops::*;
pub use rt::*;
pub use sh::*;

pub use prima_undine as pu;
pub type Dev = &'static prima_undine::Device<'static>;
pub type Ten = prima_undine::Tensor<'static>;
pub type Nd = prima_undine::Node<'static, 'static>;

#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;
