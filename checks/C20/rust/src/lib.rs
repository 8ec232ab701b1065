include!("../../../../rt/vp.rs");
use memoized::{memoized, query_group};
use std::cell::Cell;
use std::hash::{Hash, Hasher};

const N: usize = 4;
/// A graph of queries and what each contributes; `calls` counts evaluations.
struct G { e: [[bool; N]; N], leaf: [u32; N], calls: [Cell<u32>; N], calls2: [Cell<u32>; N] }
impl G {
    fn new() -> G { G { e: [[false; N]; N], leaf: core::array::from_fn(|_| vp::u32()), calls: Default::default(), calls2: Default::default() } }
    fn bump(c: &Cell<u32>) { c.set(c.get() + 1) }
    fn direct(&self, n: usize) -> u32 {
        let mut x = self.leaf[n];
        for d in 0..N { if self.e[n][d] { x = x.rotate_left(5) ^ self.direct(d); } }
        x
    }
    /// reach[a][b]: evaluating a evaluates b
    fn reach(&self) -> [[bool; N]; N] {
        let mut r = self.e;
        for k in 0..N { for a in 0..N { for b in 0..N { r[a][b] |= r[a][k] & r[k][b]; } } }
        r
    }
}
query_group! {
    pub struct Db<'a> {
        #[input]
        fn g(&self) -> &'a G;
        #[break_cycles_with = false]
        fn any(&self, n: usize) -> bool;
        fn val(&self, n: usize) -> u32;
        fn pair(&self, a: Key, b: Key) -> u32;
        fn back(&self, n: usize, up: bool) -> u32;
    }
}
/// A key whose equality is symbolic and whose hash is not.
#[derive(Clone, Copy)]
pub struct Key(u8);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl Hash for Key { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(0) } }

fn any(db: &Db<'_>, n: usize) -> bool {
    let g = db.g();
    G::bump(&g.calls[n]);
    let mut r = g.leaf[n] & 1 == 1;
    for d in 0..N { if g.e[n][d] { r |= db.any(d); } }
    r
}
fn val(db: &Db<'_>, n: usize) -> u32 {
    let g = db.g();
    G::bump(&g.calls[n]);
    let mut x = g.leaf[n];
    for d in 0..N { if g.e[n][d] { x = x.rotate_left(5) ^ db.val(d); } }
    x
}
fn pair(db: &Db<'_>, a: Key, b: Key) -> u32 {
    G::bump(&db.g().calls[0]);
    (a.0 as u32) << 8 | b.0 as u32
}
/// Two mutually recursive functions of one database: up = true goes through `side`.
fn back(db: &Db<'_>, n: usize, up: bool) -> u32 {
    let g = db.g();
    G::bump(&g.calls[n]);
    if up && n > 0 { side(db, n - 1) ^ 1 } else { g.leaf[n] }
}
fn side_(db: &Db<'_>, n: usize) -> u32 {
    let g = db.g();
    G::bump(&g.calls2[n]);
    db.back(n, n % 2 == 0).rotate_left(3)
}
fn cyclic(_: &str) -> u32 { 0xDEAD }
memoized!(cyclic, fn side(db: &Db<'_>, n: usize) -> u32 = side_);

fn db(g: &G) -> Db<'_> { Db::new(g, any, val, pair, back) }

/// Acyclic evaluation: the direct value, computed once per query however often and in whatever order it is asked for.
fn acyclic(queries: usize) {
    let mut g = G::new();
    for a in 0..N { for b in 0..a { g.e[a][b] = vp::pick(2) == 1; } }
    let d = db(&g);
    let r = g.reach();
    let mut need = [false; N];
    for _ in 0..queries {
        let q = vp::pick(N);
        VP_CHECK!(d.val(q) == g.direct(q));
        for b in 0..N { need[b] |= b == q || r[q][b]; }
        for b in 0..N { VP_CHECK!(g.calls[b].get() == need[b] as u32); }
    }
}
#[unsafe(no_mangle)] pub extern "C" fn h_acyclic() { acyclic(2) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_acyclic() { acyclic(3) }
/// Cycles broken with the neutral value: whether anything a query depends on is set, whatever was asked before.
fn cycles(n: usize, mask: usize, sel: usize) {
    let mut g = G::new();
    let mut k = 0;
    for a in 0..n { for b in 0..n {
        g.e[a][b] = if k < 2 && sel < 4 { sel >> k & 1 == 1 } else if a == b && mask == 0 { false } else { vp::pick(2) == 1 };
        if a != b { k += 1; }
    } }
    let d = db(&g);
    let r = g.reach();
    let (p, q) = (vp::pick(n), vp::pick(n));
    for x in [p, q, (p + 1) % n, (p + 2) % n] {
        let mut want = g.leaf[x] & 1 == 1;
        for b in 0..n { if r[x][b] { want |= g.leaf[b] & 1 == 1; } }
        VP_CHECK!(d.any(x) == want);
    }
    // Once answered, an answer that used no broken cycle is kept.
    for x in 0..n {
        let c: u32 = g.calls.iter().map(|c| c.get()).sum();
        let mut free = true;
        for b in 0..n { if (b == x || r[x][b]) && r[b][b] { free = false; } }
        d.any(x);
        if free { VP_CHECK!(c == g.calls.iter().map(|c| c.get()).sum()); }
    }
}
#[unsafe(no_mangle)] pub extern "C" fn h_cycles0() { cycles(3, 0, 0) }
#[unsafe(no_mangle)] pub extern "C" fn h_cycles1() { cycles(3, 0, 1) }
#[unsafe(no_mangle)] pub extern "C" fn h_cycles2() { cycles(3, 0, 2) }
#[unsafe(no_mangle)] pub extern "C" fn h_cycles3() { cycles(3, 0, 3) }
/// A cycle through a function that breaks none is reported, exactly when there is one.
#[unsafe(no_mangle)] pub extern "C" fn h_report() { // VP_MAYBE
    let mut g = G::new();
    for a in 0..3 { for b in 0..3 { g.e[a][b] = vp::pick(2) == 1; } }
    let r = g.reach();
    let mut cyc = false;
    for b in 0..3 { cyc |= (b == 0 || r[0][b]) && r[b][b]; }
    vp::expect_abort(cyc);
    let d = db(&g);
    let x = d.val(0);
    VP_CHECK!(!cyc && x == g.direct(0));
}
/// Arguments are compared by equality of all of them, in their positions.
#[unsafe(no_mangle)] pub extern "C" fn h_args() {
    let g = G::new();
    let d = db(&g);
    let a: [(u8, u8); 3] = core::array::from_fn(|_| (vp::u8(), vp::u8()));
    let mut n = 0;
    for i in 0..3 {
        VP_CHECK!(d.pair(Key(a[i].0), Key(a[i].1)) == (a[i].0 as u32) << 8 | a[i].1 as u32);
        if !a[..i].contains(&a[i]) { n += 1; }
        VP_CHECK!(g.calls[0].get() == n);
    }
}
/// Functions memoized beside the database keep their results per database.
#[unsafe(no_mangle)] pub extern "C" fn h_beside() {
    let (g, h) = (G::new(), G::new());
    let (d, e) = (db(&g), db(&h));
    let want = |g: &G, n: usize| {
        let mut stack = n;
        let mut k = 0;
        // side(n) = rotl3(back(n, even)), back(n, true) = side(n - 1) ^ 1
        while stack % 2 == 0 && stack > 0 { stack -= 1; k += 1; }
        let mut x = g.leaf[stack].rotate_left(3);
        for _ in 0..k { x = (x ^ 1).rotate_left(3); }
        x
    };
    let first = vp::pick(2) == 1;
    for k in 0..3 {
        let (db, g) = if (k == 1) != first { (&d, &g) } else { (&e, &h) };
        let n = vp::pick(N);
        VP_CHECK!(side(db, n) == want(g, n));
        for c in g.calls2.iter() { VP_CHECK!(c.get() <= 1); }
        for c in g.calls.iter() { VP_CHECK!(c.get() <= 2); }
    }
}
