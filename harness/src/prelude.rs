pub use crate::dom::{info, Dom, Info};
pub use crate::obj::*;
pub use fmcore::engine::*;
pub use fmcore::model::*;
pub use fmcore::report::*;
pub use fmcore::val::*;
pub use fixed_map::{Key, Map, Set};

