#include "virt.h"
Left::Left(W v) : Root{v, 1}, left(v + 1) {}
Left::~Left() {}
Right::Right(W v) : Root{v, 2}, right(static_cast<std::uint8_t>(v + 2)) {}
Right::~Right() {}
Join::Join(W v) : Root{v, 3}, Left(v ^ 5), Right(v ^ 6), join(static_cast<std::uint16_t>(v)) {}
Join::~Join() {}
Pad::~Pad() {}
far::Deep::Deep(W v) : Root{v, 4}, Join(v ^ 7), deep(v + 9) {}
far::Deep::~Deep() {}
#define AT(T, B, x) reinterpret_cast<std::size_t>(static_cast<const B*>(&x))
std::size_t at_left_root(const Left& l) { return AT(Left, Root, l); }
std::size_t at_right_root(const Right& r) { return AT(Right, Root, r); }
std::size_t at_join_left(const Join& j) { return AT(Join, Left, j); }
std::size_t at_join_right(const Join& j) { return AT(Join, Right, j); }
std::size_t at_join_root(const Join& j) { return AT(Join, Root, j); }
std::size_t at_deep_join(const far::Deep& d) { return AT(far::Deep, Join, d); }
std::size_t at_deep_root(const far::Deep& d) { return AT(far::Deep, Root, d); }
std::size_t at_deep_right(const far::Deep& d) { return AT(far::Deep, Right, d); }
