use std::fmt;
/// Displays as its digits between brackets.
pub struct Num { pub v: u8 }
impl Num { pub fn of(v: u8) -> Num { Num { v } } }
impl fmt::Display for Num { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("<")?; write!(f, "{}", self.v)?; f.write_str(">") } }
/// Owns text of any length up to 4.
pub struct Text { b: Vec<u8> }
impl Text {
    pub fn of(a: u8, b: u8, n: u8) -> Text { Text { b: [a & 127, b & 127, a & 127, 33][..(n as usize).min(4)].to_vec() } }
}
impl fmt::Display for Text { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(std::str::from_utf8(&self.b).unwrap_or("?")) } }
#[derive(Clone, Copy)]
pub struct Flag { pub on: bool }
impl Flag { pub fn of(on: bool) -> Flag { Flag { on } } }
impl fmt::Display for Flag { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.on { "on" } else { "" }) } }
pub enum Kind { A(u8), B }
impl Kind { pub fn a(x: u8) -> Kind { Kind::A(x) } pub fn b() -> Kind { Kind::B } }
impl fmt::Display for Kind { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Kind::A(x) => f.write_str(if *x > 9 { "many" } else { "few" }), Kind::B => f.write_str("b") } } }
pub mod inner {
    use std::fmt;
    pub struct Num { pub v: u8 }
    impl Num { pub fn of(v: u8) -> Num { Num { v } } }
    impl fmt::Display for Num { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.v == 0 { "zero" } else { "some" }) } }
}
