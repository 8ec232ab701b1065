//! Stand-in for the part of the `cxx` crate that generated bindings name (it is not installed here).
pub mod kind {
    pub enum Opaque {}
    pub enum Trivial {}
    pub trait Kind {}
    impl Kind for Opaque {}
    impl Kind for Trivial {}
}
pub unsafe trait ExternType {
    type Id;
    type Kind: kind::Kind;
}
#[macro_export]
macro_rules! type_id { ($($t:tt)*) => { () }; }
