pub mod layout;
pub mod relation;
pub mod traits;
