pub mod big;
pub mod engine;
pub mod fx;
pub mod guard;
pub mod json;
pub mod layout;
pub mod num;
