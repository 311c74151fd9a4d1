pub mod catalog;
pub mod docgen;
pub mod load;
pub mod probe;
pub mod shape;
pub mod val;
