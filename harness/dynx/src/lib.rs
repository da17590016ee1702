//! Dynamic expression trees over the *real* aegir operators, plus an independent reference model.
//!
//! aegir expressions are compile-time types. To monitor arbitrary, randomly generated programs at
//! run time, every operator is instantiated over type-erased children ([`Dyn`]); each edge of the
//! tree is therefore an observation point, while everything an operator does (value, lifted value,
//! shape, containment, derivative, text, errors) is executed by aegir's own code.
pub mod ast;
pub mod ctx;
pub mod gen;
pub mod nodes;
pub mod obs;
pub mod refr;
pub use ast::*;
pub use ctx::*;
pub use nodes::*;
pub use obs::*;
