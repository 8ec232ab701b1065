// apart from the thunks: see DESIGN.md, the special members of trivial_abi classes
#include "lib.h"
[[gnu::noinline]] Tok::Tok(W x) : p_(new W(x)) {}
[[gnu::noinline]] Tok::Tok(const Tok& o) : p_(new W(*o.p_)) {}
[[gnu::noinline]] Tok::Tok(Tok&& o) : p_(o.p_) { o.p_ = new W(0); }
[[gnu::noinline]] Tok& Tok::operator=(const Tok& o) { W v = *o.p_; delete p_; p_ = new W(v); return *this; }
[[gnu::noinline]] Tok& Tok::operator=(Tok&& o) { W* t = p_; p_ = o.p_; o.p_ = t; return *this; }
[[gnu::noinline]] Tok::~Tok() { delete p_; }
