pub use ::std::*;
pub mod collections;
pub mod sync;
pub mod thread;
pub mod time;
