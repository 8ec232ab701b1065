"""Writes fnum.rs and fnum.cc: the same functions over each ffi_11 type (run by hand; the results are committed)."""
import os
T = [('char', 'c_char', 'u8', 'char'), ('c8', 'c_char8_t', 'u8', 'char8_t'), ('c16', 'c_char16_t', 'u16', 'char16_t'), ('c32', 'c_char32_t', 'u32', 'char32_t'),
     ('ll', 'c_longlong', 'i64', 'long long'), ('ull', 'c_ulonglong', 'u64', 'unsigned long long'),
     ('l', 'c_long', 'i64', 'long'), ('ul', 'c_ulong', 'u64', 'unsigned long'), ('i', 'c_int', 'i32', 'int'), ('u', 'c_uint', 'u32', 'unsigned int'),
     ('s', 'c_short', 'i16', 'short'), ('us', 'c_ushort', 'u16', 'unsigned short'), ('sc', 'c_schar', 'i8', 'signed char'), ('uc', 'c_uchar', 'u8', 'unsigned char')]
rs = 'use ffi_11::*;\n'
cc = '''#include <cstddef>
#include <optional>
#include <tuple>
#include <type_traits>
#include "vp.h"
#include "fnum.h"
using namespace fnum;
'''
for n, r, u, c in T:
    rs += f'''
pub fn {n}_step(x: {r}) -> {r} {{ new_{r}({u}::from(x).wrapping_mul(3).wrapping_add(1)) }}
pub fn {n}_pair(x: {r}, b: bool, y: {r}) -> (bool, {r}) {{ (!b, if b {{ x }} else {{ y }}) }}
pub fn {n}_opt(x: Option<{r}>) -> Option<{r}> {{ x.map({n}_step) }}
pub unsafe fn {n}_at(p: *const {r}, q: *mut {r}) {{ unsafe {{ *q = {n}_step(*p) }} }}
pub fn {n}_swap(a: &mut {r}, b: &mut {r}) {{ core::mem::swap(a, b) }}
pub fn {n}_pick<'a>(b: bool, x: &'a {r}, y: &'a {r}) -> &'a {r} {{ if b {{ x }} else {{ y }} }}
pub extern "C" fn {n}_c(x: {r}) -> {r} {{ {n}_step(x) }}
pub fn {n}_call(f: extern "C" fn({r}) -> {r}, x: {r}) -> {r} {{ {n}_step(f(x)) }}
#[derive(Clone, Copy)]
pub struct R{n} {{ pub a: u8, pub b: {r}, pub p: *const {r}, pub o: Option<{r}> }}
impl R{n} {{
    pub fn of(a: u8, b: {r}, p: &'static {r}, some: bool) -> Self {{ R{n} {{ a, b, p, o: if some {{ Some(b) }} else {{ None }} }} }}
    pub fn next(&mut self) -> {r} {{ let x = self.b; self.b = {n}_step(x); self.a += 1; x }}
    pub fn sum(self) -> u64 {{ {u}::from(self.b) as u64 ^ self.a as u64 ^ (unsafe {{ *self.p }} == self.b) as u64 }}
}}
'''
    cc += f'''
namespace {{
{c} step_{n}({c} x) {{ return static_cast<{c}>(static_cast<unsigned long long>(x) * 3 + 1); }}
extern "C" {c} cb_{n}({c} x) {{ return static_cast<{c}>(x ^ 5); }}
}}  // namespace
H({n}) {{
  {c} x = vp_any<{c}>(), y = vp_any<{c}>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype({n}_step(x)), {c}>);
  VP_CHECK({n}_step(x) == step_{n}(x) && {n}_c(x) == step_{n}(x));
  std::tuple<bool, {c}> t = {n}_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<{c}> o = {n}_opt(x);
  VP_CHECK(o.has_value() && *o == step_{n}(x) && !{n}_opt(std::nullopt).has_value());
  {n}_at(&x, &q);
  VP_CHECK(q == step_{n}(x));
  const {c}& r = {n}_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK({n}_call(cb_{n}, x) == step_{n}(cb_{n}(x)));
  {c} x0 = x, y0 = y;
  {n}_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}}
H({n}_rec) {{
  static {c} y;
  {c} x = vp_any<{c}>();
  y = vp_any<{c}>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  R{n} v = R{n}::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), {c}> && std::is_same_v<decltype(v.p), const {c}*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_{n}(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>({'static_cast<unsigned char>(y)' if n == 'char' else 'y'}) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}}
'''
C = {'char': (0, 127, 128, 255, 65), 'll': ('i64::MIN', 'i64::MAX', -1), 'ull': (0, 'u64::MAX', 1 << 63), 'l': ('i64::MIN', 5), 'ul': ('u64::MAX',),
     'i': ('i32::MIN', 'i32::MAX'), 'u': ('u32::MAX',), 's': ('i16::MIN',), 'us': ('u16::MAX',), 'sc': ('i8::MIN',), 'uc': ('u8::MAX',)}
rs += '\n'
cc += '\nH(consts) {\n'
for n, vs in C.items():
    r, u, c = next(t[1:] for t in T if t[0] == n)
    for k, v in enumerate(vs):
        rs += f'pub const K_{n}_{k}: {r} = new_{r}({v});\npub fn k_{n}_{k}() -> {r} {{ K_{n}_{k} }}\n'
        cc += f'  static_assert(std::is_same_v<decltype(K_{n}_{k}), const {c}>);\n  VP_CHECK(K_{n}_{k} == k_{n}_{k}());\n'
cc += '}\n'
d = os.path.dirname(os.path.abspath(__file__))
open(d + '/fnum.rs', 'w').write(rs)
open(d + '/fnum.cc', 'w').write(cc)
