include!("../../../../rt/vp.rs");
use code_gen_utils::{escape_non_identifier_chars as esc, is_cpp_reserved_keyword, make_rs_ident, try_make_rs_ident};

/// A short string in a fixed buffer.
#[derive(Clone, Copy)]
struct S { b: [u8; 48], n: usize }
impl S {
    fn new() -> S { S { b: [0; 48], n: 0 } }
    fn push(&mut self, x: u8) { self.b[self.n] = x; self.n += 1; }
    fn add(&mut self, s: &str) { for x in s.as_bytes() { self.push(*x); } }
    fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) } }
}
fn same(a: &str, b: &str) -> bool {
    let mut e = a.len() == b.len();
    if e { for i in 0..a.len() { e &= a.as_bytes()[i] == b.as_bytes()[i]; } }
    e
}
fn ascii() -> u8 { let c = vp::u8(); vp::assume(c < 128); c }
fn any(n: usize) -> S { let mut s = S::new(); for _ in 0..n { s.push(ascii()); } s }
/// An identifier, in C++ as in Rust: nothing but letters, digits, underscores and letters outside ASCII, no digit first.
fn ident(s: &str, other: &[&str]) -> bool {
    let mut ok = true;
    for (i, c) in s.bytes().enumerate() {
        let l = (c | 32).wrapping_sub(b'a') < 26;
        ok &= l | (c == b'_') | (i > 0 && c.wrapping_sub(b'0') < 10) | (c >= 0x80);
    }
    for o in other { ok &= !s.contains(*o); }
    ok
}
fn differ(a: &S, b: &S) {
    let (x, y) = (esc(a.str()), esc(b.str()));
    VP_CHECK!(same(&x, &y) == same(a.str(), b.str()));
    VP_CHECK!((x.is_empty() == (a.n == 0)) && ident(&x, &[]));
}
#[unsafe(no_mangle)] pub extern "C" fn h_pairs() {
    let (n, m) = (vp::pick(3), vp::pick(3));
    vp::assume(n >= m);
    differ(&any(n), &any(m));
}
#[unsafe(no_mangle)] pub extern "C" fn h_t_pairs() { differ(&any(3), &any(2)); }
#[unsafe(no_mangle)] pub extern "C" fn h_t_triples() { differ(&any(3), &any(3)); }
/// A name made of the escaped form of another, or of part of it and the rest of the original.
#[unsafe(no_mangle)] pub extern "C" fn h_image() {
    let b = any(1 + vp::pick(2));
    let out = esc(b.str());
    let mut a = S::new();
    a.add(&out);
    differ(&a, &b);
}
#[unsafe(no_mangle)] pub extern "C" fn h_mixed() {
    let b = any(2);
    let (first, whole) = (esc(&b.str()[..1]), esc(b.str()));
    let mut a = S::new();
    if vp::bool() { a.add(&first); a.push(b.b[1]); }
    else { a.push(b.b[0]); if whole.len() > first.len() { a.add(&whole[first.len()..]); } }
    differ(&a, &b);
}
/// Characters outside ASCII: letters, marks that only continue identifiers, symbols.
const WIDE: [(&str, bool, bool); 6] = [("\u{e9}", true, true), ("\u{b7}", false, true), ("\u{20ac}", false, false), ("\u{4e2d}", true, true), ("\u{1f600}", false, false), ("\u{1d4b3}", true, true)];
#[unsafe(no_mangle)] pub extern "C" fn h_wide() {
    let (i, j) = (vp::pick(6), vp::pick(7));
    let place = vp::pick(2);
    let mut a = S::new();
    let c = ascii();
    if place == 1 { a.push(c); }
    a.add(WIDE[i].0);
    let mut b = S::new();
    if place == 1 { b.push(ascii()); }
    if j < 6 { b.add(WIDE[j].0); } else { b.push(ascii()); }
    differ(&a, &b);
    let x = esc(a.str());
    // What cannot stand in an identifier there does not.
    for (w, start, cont) in WIDE { if !(if place == 0 { start } else { cont }) { VP_CHECK!(!x.contains(w)); } }
}
const CPP: [&str; 97] = ["alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class",
    "compl", "concept", "const", "consteval", "constexpr", "constinit", "const_cast", "continue", "co_await", "co_return", "co_yield", "decltype", "default", "delete", "do", "double",
    "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept",
    "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static",
    "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual",
    "void", "volatile", "wchar_t", "while", "xor", "xor_eq", "atomic_cancel", "atomic_commit", "atomic_noexcept", "synchronized", "reflexpr"];
#[unsafe(no_mangle)] pub extern "C" fn h_keywords() {
    let k = CPP[vp::pick(92)];
    VP_CHECK!(is_cpp_reserved_keyword(k));
}
/// Words made from a keyword by dropping, adding or changing a letter are reserved only if they are keywords too.
#[unsafe(no_mangle)] pub extern "C" fn h_near() {
    let k = CPP[vp::pick(97)];
    let mut s = S::new();
    match vp::pick(4) {
        0 => s.add(&k[1..]),
        1 => s.add(&k[..k.len() - 1]),
        2 => { s.add(k); s.push(b'_'); }
        _ => { s.push(k.as_bytes()[0] ^ 32); s.add(&k[1..]); }
    }
    VP_CHECK!(is_cpp_reserved_keyword(s.str()) == CPP.contains(&s.str()));
}
/// C++ names as Rust identifiers: every word Rust reserves is written raw or refused, everything else stays as it is.
const RUST: [&str; 47] = ["as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref",
    "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
    "priv", "typeof", "unsized", "virtual", "yield", "try"];
#[unsafe(no_mangle)] pub extern "C" fn h_rust() {
    let k = RUST[vp::pick(47)];
    let mut want = S::new();
    want.add("r#");
    want.add(k);
    VP_CHECK!(same(&try_make_rs_ident(k).unwrap().to_string(), want.str()));
}
#[unsafe(no_mangle)] pub extern "C" fn h_path_words() {
    VP_CHECK!(try_make_rs_ident(["self", "Self", "super", "crate"][vp::pick(4)]).is_ok_and(|i| i.to_string().starts_with("r#")) == false);
}
fn rs_ident(n: usize) {
    let mut s = S::new();
    let mut want = S::new();
    for i in 0..n {
        let c = ascii();
        let l = (c | 32).wrapping_sub(b'a') < 26;
        vp::assume(l || c == b'_' || (i > 0 && (c == b'-' || c.wrapping_sub(b'0') < 10)));
        s.push(c);
        want.push(if c == b'-' { b'_' } else { c });
    }
    let all_under = same(want.str(), "_");
    vp::assume(!all_under);
    let r = make_rs_ident(s.str()).to_string();
    let raw = RUST.iter().any(|k| same(k, want.str()));
    let mut w = S::new();
    if raw { w.add("r#"); }
    w.add(want.str());
    VP_CHECK!(same(&r, w.str()));
}
#[unsafe(no_mangle)] pub extern "C" fn h_rs_ident() { rs_ident(1 + vp::pick(2)); }
#[unsafe(no_mangle)] pub extern "C" fn h_t_rs_ident() { rs_ident(3); }
