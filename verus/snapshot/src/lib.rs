pub use nalgebra;

mod morton;
pub use self::morton::*;

mod indices;
pub use self::indices::*;

mod error;
pub use self::error::*;

pub mod align;
pub mod dimensions;
pub mod number;
pub mod helper;