#include "disp.h"
#include <ostream>
std::ostream& operator<<(std::ostream& os, const Piece& p) {
  os << "[";
  os.put(static_cast<char>(p.a));
  if (p.flush) os.flush();
  os << static_cast<char>(p.b);
  if (p.end) os << "\xE2\x82";
  return os;
}
[[gnu::noinline]] Held::Held(std::uint64_t v) : v_(v), p_(new std::uint64_t(v)) {}
[[gnu::noinline]] Held::Held(const Held& o) : v_(o.v_), p_(new std::uint64_t(*o.p_)) {}
[[gnu::noinline]] Held::~Held() { delete p_; }
std::ostream& operator<<(std::ostream& os, const Held& h) {
  char b[2] = {static_cast<char>(*h.p_), static_cast<char>(h.v_ >> 8)};
  return os.write(b, 2) << "!";
}
std::ostream& operator<<(std::ostream& os, Plain p) { return os << (p == kOne ? "one" : "\xFF"); }
std::ostream& operator<<(std::ostream& os, const Both&) { return os << "wrong"; }
