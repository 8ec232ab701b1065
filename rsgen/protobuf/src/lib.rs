//! The part of the protobuf runtime's API that rs_bindings_from_cc uses, over dynamically typed
//! messages read from JSON. (protoc's Rust generator is not installed here.)
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Int(i64), Bool(bool), Str(String), Msg(Msg) }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Msg { pub fields: BTreeMap<u32, Vec<Val>> }
pub static EMPTY: Msg = Msg { fields: BTreeMap::new() };
impl Msg {
    pub fn get(&self, n: u32) -> Option<&Val> { self.fields.get(&n).and_then(|v| v.last()) }
    pub fn has(&self, n: u32) -> bool { self.get(n).is_some() }
    pub fn int(&self, n: u32) -> i64 { match self.get(n) { Some(Val::Int(i)) => *i, _ => 0 } }
    pub fn boolean(&self, n: u32) -> bool { matches!(self.get(n), Some(Val::Bool(true))) }
    pub fn string(&self, n: u32) -> &ProtoStr { match self.get(n) { Some(Val::Str(s)) => ProtoStr::new(s), _ => ProtoStr::new("") } }
    pub fn msg(&self, n: u32) -> &Msg { match self.get(n) { Some(Val::Msg(m)) => m, _ => &EMPTY } }
    pub fn all(&self, n: u32) -> &[Val] { self.fields.get(&n).map_or(&[], |v| v) }
    pub fn push(&mut self, n: u32, v: Val) { self.fields.entry(n).or_default().push(v) }
}

#[repr(transparent)]
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ProtoStr(str);
#[derive(Debug)]
pub struct Utf8Error;
impl fmt::Display for Utf8Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("not UTF-8") } }
impl std::error::Error for Utf8Error {}
impl ProtoStr {
    pub fn new(s: &str) -> &ProtoStr { unsafe { &*(s as *const str as *const ProtoStr) } }
    pub fn to_str(&self) -> Result<&str, Utf8Error> { Ok(&self.0) }
    pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn len(&self) -> usize { self.0.len() }
}
impl fmt::Debug for ProtoStr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for ProtoStr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl PartialEq<str> for ProtoStr { fn eq(&self, o: &str) -> bool { &self.0 == o } }

/// How a field's value is seen through a view.
pub trait FromVal<'a>: Copy { fn from_val(v: &'a Val) -> Self; }
impl<'a> FromVal<'a> for &'a ProtoStr { fn from_val(v: &'a Val) -> Self { match v { Val::Str(s) => ProtoStr::new(s), _ => panic!() } } }
macro_rules! ints { ($($t:ty)*) => { $( impl<'a> FromVal<'a> for $t { fn from_val(v: &'a Val) -> Self { match v { Val::Int(s) => *s as $t, _ => panic!() } } } )* } }
ints!(i32 i64 u32 u64);
impl<'a> FromVal<'a> for bool { fn from_val(v: &'a Val) -> Self { matches!(v, Val::Bool(true)) } }

pub struct RepeatedView<'a, T>(&'a [Val], std::marker::PhantomData<T>);
impl<'a, T> Clone for RepeatedView<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for RepeatedView<'a, T> {}
impl<'a, T: FromVal<'a>> RepeatedView<'a, T> {
    pub fn new(v: &'a [Val]) -> Self { RepeatedView(v, std::marker::PhantomData) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn get(&self, i: usize) -> Option<T> { self.0.get(i).map(T::from_val) }
    pub fn iter(&self) -> RepeatedIter<'a, T> { RepeatedIter(self.0.iter(), std::marker::PhantomData) }
}
impl<'a, T: FromVal<'a>> IntoIterator for RepeatedView<'a, T> { type Item = T; type IntoIter = RepeatedIter<'a, T>; fn into_iter(self) -> RepeatedIter<'a, T> { self.iter() } }
impl<'a, T: FromVal<'a> + fmt::Debug> fmt::Debug for RepeatedView<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.iter()).finish() } }
pub struct RepeatedIter<'a, T>(std::slice::Iter<'a, Val>, std::marker::PhantomData<T>);
impl<'a, T: FromVal<'a>> Iterator for RepeatedIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next().map(T::from_val) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<'a, T: FromVal<'a>> ExactSizeIterator for RepeatedIter<'a, T> {}
impl<'a, T: FromVal<'a>> DoubleEndedIterator for RepeatedIter<'a, T> { fn next_back(&mut self) -> Option<T> { self.0.next_back().map(T::from_val) } }

/// A map field: its entries are messages with the key in field 1 and the value in field 2.
pub struct MapView<'a, K, V>(&'a [Val], std::marker::PhantomData<(K, V)>);
impl<'a, K, V> Clone for MapView<'a, K, V> { fn clone(&self) -> Self { *self } }
impl<'a, K, V> Copy for MapView<'a, K, V> {}
impl<'a, K: FromVal<'a>, V: FromVal<'a>> MapView<'a, K, V> {
    pub fn new(v: &'a [Val]) -> Self { MapView(v, std::marker::PhantomData) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> MapIter<'a, K, V> { MapIter(self.0.iter(), std::marker::PhantomData) }
}
impl<'a, K: FromVal<'a>, V: FromVal<'a>> IntoIterator for MapView<'a, K, V> { type Item = (K, V); type IntoIter = MapIter<'a, K, V>; fn into_iter(self) -> MapIter<'a, K, V> { self.iter() } }
pub struct MapIter<'a, K, V>(std::slice::Iter<'a, Val>, std::marker::PhantomData<(K, V)>);
impl<'a, K: FromVal<'a>, V: FromVal<'a>> Iterator for MapIter<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.0.next().map(|v| match v { Val::Msg(m) => (K::from_val(m.get(1).expect("key")), V::from_val(m.get(2).expect("value"))), _ => panic!() })
    }
}

/// Reading JSON (names as in the .proto file; one-of members are plain fields).
pub type Schema = fn(&str) -> Option<Field>;
#[derive(Clone, Copy)]
pub struct Field { pub number: u32, pub kind: Kind, pub repeated: bool }
#[derive(Clone, Copy)]
pub enum Kind { Scalar, Enum(fn(&str) -> i64), Message(Schema), Map(&'static Field) }
pub fn read(j: &serde_json::Value, s: Schema) -> Msg {
    let mut m = Msg::default();
    for (k, v) in j.as_object().expect("a message is an object") {
        let f = s(k).unwrap_or_else(|| panic!("the protocol has no field {k}"));
        if let Kind::Map(val) = f.kind {
            for (k, v) in v.as_object().unwrap() {
                let mut e = Msg::default();
                e.push(1, Val::Str(k.clone()));
                e.push(2, value(v, *val));
                m.push(f.number, Val::Msg(e));
            }
        } else if f.repeated {
            for v in v.as_array().unwrap() { m.push(f.number, value(v, f)); }
        } else {
            m.push(f.number, value(v, f));
        }
    }
    m
}
fn value(v: &serde_json::Value, f: Field) -> Val {
    match (f.kind, v) {
        (Kind::Message(s), v) => Val::Msg(read(v, s)),
        (Kind::Enum(e), serde_json::Value::String(s)) => Val::Int(e(s)),
        (_, serde_json::Value::String(s)) => Val::Str(s.clone()),
        (_, serde_json::Value::Bool(b)) => Val::Bool(*b),
        (_, serde_json::Value::Number(n)) => Val::Int(n.as_i64().unwrap_or_else(|| n.as_u64().unwrap() as i64)),
        _ => panic!("bad value {v}"),
    }
}
