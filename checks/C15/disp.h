// Types that can be formatted.
#ifndef VP_C15_DISP_H_
#define VP_C15_DISP_H_
#pragma clang lifetime_elision
#include <cstdint>
#include <iosfwd>
#include <string_view>
#include "support/annotations.h"
// AbslStringify: a friend, a function next to the type, of a class, an enum, in a namespace
struct Text {
  unsigned char b[4];
  unsigned char n;
  template <typename S>
  friend void AbslStringify(S& s, const Text& t) {
    s.Append("<");
    s.Append(std::string_view(reinterpret_cast<const char*>(t.b), t.n));
    s.Append(2, '>');
  }
};
enum class Color : std::uint8_t { kRed, kGreen = 4 };
template <typename S>
void AbslStringify(S& s, Color c) {
  if (c == Color::kRed) { s.Append("red"); return; }
  s.Append("\xCE");                       // a character in two pieces
  s.Append(1, static_cast<char>(static_cast<unsigned char>(c)));
}
namespace paint {
enum class Color : std::uint8_t { kBlue };
template <typename S>
void AbslStringify(S& s, const Color& c) { s.Append(static_cast<std::size_t>(c), 'b'); }
struct Brush {
  explicit Brush(Color c, std::uint8_t x) : c(c), x(x) {}
  Color c;
  std::uint8_t x;
};
template <typename S>
void AbslStringify(S& s, const Brush& b) { AbslStringify(s, b.c); s.Append(""); s.Append(b.x & 3, '\xFF'); }
}  // namespace paint
// operator<<
struct Piece { std::uint8_t a, b; bool flush, end; };
std::ostream& operator<<(std::ostream& os, const Piece& p);
class Held {
 public:
  explicit Held(std::uint64_t v);
  Held(const Held&);
  ~Held();
  friend std::ostream& operator<<(std::ostream& os, const Held& h);
  std::uint64_t v_;
 private:
  std::uint64_t* p_;
};
enum Plain : std::uint8_t { kNone, kOne };
std::ostream& operator<<(std::ostream& os, Plain p);
// both: AbslStringify wins
struct Both {
  std::uint8_t v;
  template <typename S>
  friend void AbslStringify(S& s, const Both& b) { s.Append(b.v & 3, 'y'); }
};
std::ostream& operator<<(std::ostream& os, const Both& b);
struct CRUBIT_OVERRIDE_DISPLAY(false) Quiet {
  int x;
  template <typename S>
  friend void AbslStringify(S& s, const Quiet&) { s.Append("quiet"); }
};
#endif
