include!("../../../../rt/vp.rs");
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use token_stream_printer::{fix_provenance_map_postformatting, rs_tokens_to_formatted_string, tokens_to_string, tokens_to_string_with_provenance, write_unformatted_tokens};

fn id(s: &str) -> TokenTree { TokenTree::Ident(Ident::new(s, Span::call_site())) }
fn st(s: &str) -> TokenTree { TokenTree::Literal(Literal::string(s)) }
fn pu(c: char, joint: bool) -> TokenTree { TokenTree::Punct(Punct::new(c, if joint { Spacing::Joint } else { Spacing::Alone })) }
fn print(v: Vec<TokenTree>) -> String { tokens_to_string(v.into_iter().collect()).unwrap() }
fn same(a: &str, b: &str) -> bool {
    let mut e = a.len() == b.len();
    if e { for i in 0..a.len() { e &= a.as_bytes()[i] == b.as_bytes()[i]; } }
    e
}
const TEXT: [char; 10] = ['"', '\\', 'n', '\n', 'a', '/', '\'', 'é', '\t', ' '];
fn text(n: usize, of: usize) -> String { let mut s = String::new(); for _ in 0..n { s.push(TEXT[vp::pick(of)]); } s }
/// Any printable ASCII characters, tabs and newlines.
fn ascii(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = vp::u8(); vp::assume(c >= 32 && c < 127 || c == b'\n' || c == b'\t'); s.push(c as char); }
    s
}
/// The comment's text, line by line after `// `; what follows it is not part of the comment.
fn comment(t: String) {
    let out = print(vec![id("a"), id("__COMMENT__"), st(&t), id("b")]);
    let mut want = String::from("a // ");
    for c in t.chars() { want.push(c); if c == '\n' { want.push_str("// "); } }
    let ends = t.rsplit('\n').next().unwrap().trim_end().ends_with('\\');
    VP_CHECK!(out.starts_with(&want) && out.ends_with("\nb"));
    let mid = &out[want.len()..out.len() - 2];
    // C++ joins a line that ends in a backslash with the next.
    VP_CHECK!(if ends { !mid.is_empty() && !mid.trim_end().ends_with('\\') && !mid.contains('\n') } else { mid.is_empty() });
}
#[unsafe(no_mangle)] pub extern "C" fn h_comment1() { comment(ascii(vp::pick(2))) }
#[unsafe(no_mangle)] pub extern "C" fn h_comment2() { comment(ascii(2)) }
#[unsafe(no_mangle)] pub extern "C" fn h_comment3() { comment(text(3, 9)) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_comment4() { comment(text(4, 9)) }
fn literally(t: String) {
    vp::assume(!t.contains('\n'));
    let out = print(vec![pu('<', false), id("__LITERALLY__"), st(&t), pu('>', false)]);
    let want = [&["<", &t, "\n>"].concat()[..]].concat();
    VP_CHECK!(same(&out, &want));
}
#[unsafe(no_mangle)] pub extern "C" fn h_literally2() { literally(ascii(vp::pick(3))) }
#[unsafe(no_mangle)] pub extern "C" fn h_literally3() { literally(text(3, 10)) }
/// A string that is no placeholder's argument is printed as the same string literal.
#[unsafe(no_mangle)] pub extern "C" fn h_string() {
    let t = text(2, 10);
    let out = print(vec![id("x"), st(&t), id("y")]);
    let lit = &out[2..out.len() - 2];
    VP_CHECK!(out.starts_with("x ") && out.ends_with(" y") && lit.starts_with('"') && lit.ends_with('"'));
    let (mut k, b) = (1, lit.as_bytes());
    for c in t.chars() {
        let (c, n) = match c { '"' => ("\\\"", 2), '\\' => ("\\\\", 2), '\n' => ("\\n", 2), '\t' => ("\\t", 2), 'é' => ("é", 2), 'n' => ("n", 1), 'a' => ("a", 1), '/' => ("/", 1), '\'' => ("'", 1), _ => (" ", 1) };
        for j in 0..n { VP_CHECK!(k < b.len() && b[k] == c.as_bytes()[j]); k += 1; }
    }
    VP_CHECK!(k == b.len() - 1);
}

/// Tokens as a list that can be compared: words, single punctuation, `::` as one.
#[derive(Clone, Copy, PartialEq)]
enum Tk { A, Bc, One, Str, Colon, Colons, Lt, Open, Close }
fn lex(s: &str) -> Vec<Tk> {
    let (b, mut i, mut v) = (s.as_bytes(), 0, Vec::new());
    while i < b.len() {
        let c = b[i];
        i += 1;
        match c {
            b' ' | b'\n' => {}
            b'(' => v.push(Tk::Open),
            b')' => v.push(Tk::Close),
            b'<' => v.push(Tk::Lt),
            b'"' => { while i < b.len() && b[i] != b'"' { i += 1; } i += 1; v.push(Tk::Str); }
            b':' => if i < b.len() && b[i] == b':' { i += 1; v.push(Tk::Colons) } else { v.push(Tk::Colon) },
            _ => {
                let from = i - 1;
                while i < b.len() && (b[i] | 32).wrapping_sub(b'a') < 26 || i < b.len() && b[i].wrapping_sub(b'0') < 10 { i += 1; }
                v.push(match &s[from..i] { "a" => Tk::A, "bc" => Tk::Bc, "1" => Tk::One, _ => { VP_CHECK!(false); Tk::A } });
            }
        }
    }
    v
}
fn tokens(n: usize, depth: usize, into: &mut Vec<Tk>) -> TokenStream {
    let mut v = Vec::new();
    for _ in 0..n {
        match vp::pick(if depth > 0 { 8 } else { 7 }) {
            0 => { v.push(id("a")); into.push(Tk::A) }
            1 => { v.push(id("bc")); into.push(Tk::Bc) }
            2 => { v.push(TokenTree::Literal(Literal::u8_unsuffixed(1))); into.push(Tk::One) }
            3 => { v.push(st("s")); into.push(Tk::Str) }
            4 => { v.push(pu(':', false)); into.push(Tk::Colon) }
            5 => { v.push(pu(':', true)); v.push(pu(':', false)); into.push(Tk::Colons) }
            6 => { v.push(pu('<', false)); into.push(Tk::Lt) }
            _ => { into.push(Tk::Open); let t = tokens(n - 1, depth - 1, into); into.push(Tk::Close); v.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, t))) }
        }
    }
    v.into_iter().collect()
}
fn check_tokens(n: usize, depth: usize) {
    let mut want = Vec::new();
    let t = tokens(n, depth, &mut want);
    let out = tokens_to_string(t).unwrap();
    let got = lex(&out);
    let mut e = got.len() == want.len();
    if e { for i in 0..got.len() { e &= got[i] == want[i]; } }
    VP_CHECK!(e);
}
#[unsafe(no_mangle)] pub extern "C" fn h_tokens2() { check_tokens(2, 1) }
#[unsafe(no_mangle)] pub extern "C" fn h_tokens3() { check_tokens(3, 0) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_tokens4() { check_tokens(4, 0) }
/// Placeholders stand for what they say, anywhere; bad ones are refused.
#[unsafe(no_mangle)] pub extern "C" fn h_marks() {
    let (mut v, mut want) = (Vec::new(), String::new());
    let mut word = false;    // the text so far ends in a word with no space after it
    for _ in 0..3 {
        match vp::pick(6) {
            0 => { v.push(id("__NEWLINE__")); want.push('\n'); word = false }
            1 => { v.push(id("__SPACE__")); want.push(' '); word = false }
            2 => { if word { want.push(' ') } v.push(id("__HASH_TOKEN__")); want.push('#'); word = false }
            3 => { if word { want.push(' ') } v.push(id("w")); want.push('w'); word = true }
            4 => { if word { want.push(' ') } v.push(id("__COMMENT__")); v.push(st("c")); want.push_str("// c\n"); word = false }
            _ => { let b = vp::pick(3); let (d, o, c) = [(Delimiter::Bracket, "[", "]"), (Delimiter::Brace, "{ ", " }"), (Delimiter::None, "", "")][b];
                v.push(TokenTree::Group(Group::new(d, [id("__HASH_TOKEN__")].into_iter().collect()))); want.push_str(o); want.push('#'); want.push_str(c); word = false }
        }
    }
    VP_CHECK!(same(&print(v), &want));
}
#[unsafe(no_mangle)] pub extern "C" fn h_refused() {
    let m = [id("__COMMENT__"), id("__LITERALLY__"), id("__CAPTURE_TAG__")][vp::pick(3)].clone();
    let v = match vp::pick(3) { 0 => vec![m], 1 => vec![m, id("x")], _ => vec![m, pu(':', false), st("x")] };
    VP_CHECK!(tokens_to_string(v.clone().into_iter().collect()).is_err());
    let inner = TokenTree::Group(Group::new(Delimiter::Brace, v.into_iter().collect()));
    VP_CHECK!(write_unformatted_tokens(&mut String::new(), [inner].into_iter().collect()).is_err());
}
/// Captured tokens do not change the output, and each is found again by its record, wherever a formatter moves it to.
#[unsafe(no_mangle)] pub extern "C" fn h_captures() {
    let words = ["x", "xx", "y"];
    let (mut v, mut plain, mut pos) = (Vec::new(), Vec::new(), Vec::new());
    let n = 1 + vp::pick(2);
    for k in 0..n {
        let tag = ["p0", "p1"][k];
        v.push(id("__CAPTURE_TAG__")); v.push(st(tag)); v.push(st("10")); v.push(st("12"));
        for t in [id("__COMMENT__"), st("Generated")] { v.push(t.clone()); plain.push(t); }
        let before = vp::pick(4);
        if before < 3 { for t in [id(words[before]), pu(';', false)] { v.push(t.clone()); plain.push(t); } }
        let w = vp::pick(4);
        if w < 3 { v.push(id("__CAPTURE_BEGIN__")); v.push(id(words[w])); v.push(id("__CAPTURE_END__")); plain.push(id(words[w])); }
        let end = print(plain.clone()).len();
        pos.push(if w < 3 { Some((end - words[w].len(), end, w)) } else { None });
        let t = pu(';', false); v.push(t.clone()); plain.push(t);
    }
    let (out, map) = tokens_to_string_with_provenance(v.into_iter().collect()).unwrap();
    // A captured word is followed by a space where the word before a placeholder is.
    let squeezed = |s: &str| -> String { s.chars().filter(|c| *c != ' ').collect() };
    VP_CHECK!(same(&squeezed(&out), &squeezed(&print(plain.clone()))));
    // The formatter at work here drops all spaces.
    let formatted = squeezed(&out);
    let fixed = fix_provenance_map_postformatting(&formatted, "//Generated", &map);
    let mut lines = 0;
    for k in 0..n {
        let r = fixed.get(&(k + 1));
        match pos[k] {
            None => VP_CHECK!(r.is_none()),
            Some((_, _, w)) => {
                VP_CHECK!(r.is_some());
                let r = r.unwrap();
                VP_CHECK!(same(&formatted[r.formatted_start..r.formatted_end], words[w]) && same(&r.original_path, ["p0", "p1"][k]) && same(&r.original_start, "10") && same(&r.original_end, "12"));
                // It is the last word of the k-th declaration.
                VP_CHECK!(formatted.as_bytes()[r.formatted_end] == b';' && formatted[..r.formatted_start].matches("//Generated").count() == k + 1);
                VP_CHECK!(!formatted[r.formatted_end + 1..].starts_with(|c: char| c == 'x' || c == 'y'));
                lines += 1;
            }
        }
    }
    VP_CHECK!(lines == fixed.len());
}
/// What is handed to no formatter is the same text.
#[unsafe(no_mangle)] pub extern "C" fn h_plain() {
    let mut w = Vec::new();
    let t = tokens(2, 0, &mut w);
    VP_CHECK!(same(&rs_tokens_to_formatted_string(t.clone(), None).unwrap(), &tokens_to_string(t).unwrap()));
}
/// The path of a capture is the string it was given.
#[unsafe(no_mangle)] pub extern "C" fn h_capture_path() {
    let path = ascii(vp::pick(3));
    let v = vec![id("__CAPTURE_TAG__"), st(&path), st("1"), st("2"), id("__COMMENT__"), st("Generated"), id("__CAPTURE_BEGIN__"), id("x"), id("__CAPTURE_END__")];
    let (out, map) = tokens_to_string_with_provenance(v.into_iter().collect()).unwrap();
    let fixed = fix_provenance_map_postformatting(&out, "// Generated", &map);
    let r = fixed.get(&1);
    VP_CHECK!(fixed.len() == 1 && r.is_some() && same(&r.unwrap().original_path, &path));
}
