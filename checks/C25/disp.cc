#include "vp.h"
#include "disp.h"
#include <cstring>
#include <ostream>
#include <string_view>
using namespace disp;
// A sink of bytes, as absl's are.
struct Sink {
  char b[64]; size_t n = 0;
  void Append(std::string_view s) { memcpy(b + n, s.data(), s.size()); n += s.size(); }
  void Append(size_t k, char c) { while (k--) b[n++] = c; }
  bool is(std::string_view s) const { return n == s.size() && memcmp(b, s.data(), n) == 0; }
};
// A stream into a sink with room for some bytes.
struct Buf : std::basic_streambuf<char> {
  Sink s; size_t room = 64;
  int_type overflow(int_type c) override { char x = char(c); return xsputn(&x, 1) == 1 ? c : traits_type::eof(); }
  std::streamsize xsputn(const char* p, std::streamsize n) override { if (size_t(n) > room) return 0; room -= n; s.Append(std::string_view(p, n)); return n; }
};
// x shows as w by AbslStringify and by operator<<, with other output around it in place; nothing is left allocated.
template <class T> static void shows(const T& x, std::string_view w) {
  int live = vp_live_heap();
  Sink s; s.Append(1, '('); AbslStringify(s, x); s.Append(1, ')'); AbslStringify(s, x);
  VP_CHECK(s.n == 2 * w.size() + 2 && s.b[0] == '(' && s.b[w.size() + 1] == ')');
  VP_CHECK(memcmp(s.b + 1, w.data(), w.size()) == 0 && memcmp(s.b + w.size() + 2, w.data(), w.size()) == 0);
  Buf b; std::ostream os(&b);
  std::ostream& r = os << x << '|' << x;
  VP_CHECK(&r == &os && os.good() && b.s.n == 2 * w.size() + 1 && b.s.b[w.size()] == '|');
  VP_CHECK(memcmp(b.s.b, w.data(), w.size()) == 0 && memcmp(b.s.b + w.size() + 1, w.data(), w.size()) == 0);
  Buf c; c.room = vp_pick(4); std::ostream oc(&c);
  bool fits = w.size() <= c.room;
  oc << x;
  VP_CHECK(oc.good() == fits && c.s.n == (fits ? w.size() : 0));
  VP_CHECK(vp_live_heap() == live);
}
H(text) {
  uint8_t a = vp_any<uint8_t>(), b = vp_any<uint8_t>(); int n = vp_pick(5);
  char w[] = {char(a & 127), char(b & 127), char(a & 127), 33};
  Text t = Text::of(a, b, n);
  shows(t, std::string_view(w, n));
}
H(num) {
  uint8_t v = vp_any<uint8_t>();
  Num x = Num::of(v);
  char w[5] = {'<'}; int n = 1;
  if (v >= 100) w[n++] = '0' + v / 100;
  if (v >= 10) w[n++] = '0' + v / 10 % 10;
  w[n++] = '0' + v % 10; w[n++] = '>';
  shows(x, std::string_view(w, n));
}
H(others) {
  Flag f = Flag::of(vp_any<uint8_t>() % 2 == 1);
  shows(f, f.on ? "on" : "");
  uint8_t x = vp_any<uint8_t>();
  shows(Kind::a(x), x > 9 ? "many" : "few");
  shows(Kind::b(), "b");
}
H(scoped) {
  uint8_t v = vp_any<uint8_t>();
  inner::Num x = inner::Num::of(v);
  shows(x, v ? "some" : "zero");
}
