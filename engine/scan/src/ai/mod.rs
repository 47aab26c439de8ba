//! Abstract interpretation of whole API calls.
pub mod alpha;
pub mod cfg;
pub mod driver;
pub mod interp;
pub mod kern;
pub mod lanes;
pub mod loops;
pub mod mem;
pub mod models;
pub mod num;
pub mod poly;
pub mod range;
pub mod roots;
