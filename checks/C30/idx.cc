#include "idx.h"
const Row& Grid::operator[](const Pos& p) const { return r_[p.r & 1]; }
Row& Grid::operator[](const Pos& p) { return r_[p.r & 1]; }
Pinned::Pinned(W v) : v_{v, ~v}, self_(this) {}
Pinned::Pinned(const Pinned& o) : v_{o.v_[0], o.v_[1]}, self_(this) {}
Pinned::~Pinned() { if (self_ != this) __builtin_trap(); }
