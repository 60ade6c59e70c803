#![allow(clippy::all)]
pub mod alloc;
#[macro_use]
pub mod fw;
pub mod elem;
pub mod empties;
pub mod model;
pub mod gen;
pub mod ops;
pub mod track;

#[cfg(not(feature = "asan"))]
#[global_allocator]
static GLOBAL: alloc::CheckAlloc = alloc::CheckAlloc;

pub mod prelude {
    pub use crate::elem::*;
    pub use crate::ensure;
    pub use crate::fw::{accepts, attempt, mix, rejects, sub, Ctx, Prop, Sub, R};
    pub use crate::gen::*;
    pub use crate::model::*;
    pub use essay_tensor::tensor::{Axis, Shape, Tensor, Type};
    pub use proptest::prelude::*;
    pub use serde::{Deserialize, Serialize};
}
