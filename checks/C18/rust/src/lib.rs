include!("../../../../rt/vp.rs");
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use toposort::{toposort, Dependency, TopoSortResult};

/// A node whose place in hash tables is chosen by the harness.
#[derive(Clone, Copy, Debug)]
struct Id { id: usize, salt: u8 }
impl PartialEq for Id { fn eq(&self, o: &Id) -> bool { self.id == o.id } }
impl Eq for Id {}
impl Hash for Id { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8((self.id as u8).wrapping_mul(37) ^ self.salt) } }

struct G<const N: usize> { e: [[u8; N]; N], rank: [u8; N] }
fn run<const N: usize>(g: &G<N>, salt: u8, swap: bool) -> TopoSortResult<Id> {
    let id = |id| Id { id, salt };
    let mut deps = Vec::new();
    for a in 0..N { for b in 0..N {
        let (p, s) = if swap { (b, a) } else { (a, b) };
        for _ in 0..g.e[p][s] { deps.push(Dependency { predecessor: id(p), successor: id(s) }); }
    } }
    toposort((0..N).map(id), deps, |a: &Id, b: &Id| g.rank[a.id].cmp(&g.rank[b.id]))
}
fn check<const N: usize>(g: &G<N>) {
    // What depends on a cycle: reach[a][b] is that b depends on a through at least one dependency.
    let mut reach = [[false; N]; N];
    for a in 0..N { for b in 0..N { reach[a][b] = g.e[a][b] > 0; } }
    for k in 0..N { for a in 0..N { for b in 0..N { reach[a][b] |= reach[a][k] & reach[k][b]; } } }
    let mut bad = [false; N];
    for a in 0..N { for b in 0..N { bad[b] |= reach[a][a] & (reach[a][b] | (a == b)); } }
    let r = run(g, 0, false);
    // Each node appears once, in the part it belongs to.
    let mut pos = [usize::MAX; N];
    for (i, x) in r.ordered.iter().enumerate() { VP_CHECK!(x.id < N && pos[x.id] == usize::MAX && !bad[x.id]); pos[x.id] = i; }
    let mut seen = [false; N];
    for x in &r.failed { VP_CHECK!(x.id < N && bad[x.id] && !seen[x.id]); seen[x.id] = true; }
    VP_CHECK!(r.ordered.len() + r.failed.len() == N);
    // Dependencies come first.
    for a in 0..N { for b in 0..N { if g.e[a][b] > 0 && !bad[b] { VP_CHECK!(pos[a] < pos[b]); } } }
    // Failed nodes are in the preferred order.
    for w in r.failed.windows(2) { VP_CHECK!(g.rank[w[0].id] <= g.rank[w[1].id]); }
    // The preferred order is kept when the dependencies allow it.
    let less = |a: usize, b: usize| g.rank[a].cmp(&g.rank[b]).then(a.cmp(&b)) == Ordering::Less;
    let mut fits = true;
    for a in 0..N { for b in 0..N { if g.e[a][b] > 0 && !bad[b] && !less(a, b) { fits = false; } } }
    if fits { for w in r.ordered.windows(2) { VP_CHECK!(less(w[0].id, w[1].id)); } }
    // Neither the hash table's arrangement nor the order of the dependencies matters.
    for (salt, swap) in [(0x5A, true), (0xC3, false)] {
        let q = run(g, salt, swap);
        VP_CHECK!(q.ordered == r.ordered && q.failed.len() == r.failed.len());
    }
}
/// All orders of N things with ties when `ties`; decided by comparisons of symbolic ranks.
fn ranks<const N: usize>(ties: bool) -> [u8; N] {
    let mut r = [0u8; N];
    for i in 0..N {
        r[i] = vp::u8();
        if !ties { for j in 0..i { vp::assume(r[i] != r[j]); } }
    }
    r
}
fn flag() -> u8 { vp::pick(2) as u8 }
/// Every graph over three nodes without self-dependencies.
#[unsafe(no_mangle)] pub extern "C" fn h_three() {
    let mut g = G::<3> { e: [[0; 3]; 3], rank: ranks(true) };
    for a in 0..3 { for b in 0..3 { if a != b { g.e[a][b] = flag(); } } }
    check(&g);
}
/// Acyclic graphs over four nodes, in every preferred order.
fn four(mask: usize, ties: bool) {
    let mut g = G::<4> { e: [[0; 4]; 4], rank: ranks(ties) };
    for a in 0..4 { for b in a + 1..4 { g.e[a][b] = flag(); } }
    vp::assume(g.e[0][1] as usize + 2 * g.e[0][2] as usize == mask);
    check(&g);
}
#[unsafe(no_mangle)] pub extern "C" fn h_four0() { four(0, false) }
#[unsafe(no_mangle)] pub extern "C" fn h_four1() { four(1, false) }
#[unsafe(no_mangle)] pub extern "C" fn h_four2() { four(2, false) }
#[unsafe(no_mangle)] pub extern "C" fn h_four3() { four(3, false) }
/// Dependencies given more than once.
#[unsafe(no_mangle)] pub extern "C" fn h_twice() {
    let mut g = G::<3> { e: [[0; 3]; 3], rank: ranks(false) };
    for (a, b) in [(0, 1), (1, 2), (0, 2), (2, 0)] { g.e[a][b] = vp::pick(3) as u8; }
    check(&g);
}
/// Nodes that depend on themselves.
#[unsafe(no_mangle)] pub extern "C" fn h_own() {
    let mut g = G::<2> { e: [[0; 2]; 2], rank: ranks(true) };
    for a in 0..2 { for b in 0..2 { g.e[a][b] = flag(); } }
    check(&g);
}
#[unsafe(no_mangle)] pub extern "C" fn h_t_own() {
    let mut g = G::<3> { e: [[0; 3]; 3], rank: ranks(true) };
    for a in 0..3 { for b in 0..3 { g.e[a][b] = flag(); } }
    check(&g);
}
/// A cycle among four nodes, with everything else arbitrary.
fn cycle4(mask: usize) {
    let mut g = G::<4> { e: [[0; 4]; 4], rank: ranks(false) };
    for a in 0..4 { for b in a + 1..4 { g.e[a][b] = flag(); } }
    let (a, b) = [(1, 0), (2, 0), (3, 0), (2, 1), (3, 1), (3, 2)][mask];
    vp::assume(g.e[b][a] == 1);
    g.e[a][b] = 1;
    check(&g);
}
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle0() { cycle4(0) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle1() { cycle4(1) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle2() { cycle4(2) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle3() { cycle4(3) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle4() { cycle4(4) }
#[unsafe(no_mangle)] pub extern "C" fn h_t_cycle5() { cycle4(5) }
