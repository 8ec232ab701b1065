#include "lib.h"
#include "std_thunks.inc"
namespace { W deaths = 0; int fixed = 0; }
struct Derived : Base {
  Derived(W b) : Base(b), extra(new W(b ^ 5)) {}
  ~Derived() override { deaths += 1000; delete extra; }
  W v() const override { return b_ + *extra; }
  W* extra;
};
[[gnu::noinline]] Fixed::Fixed(W v) : v_(v) { fixed++; }
[[gnu::noinline]] Fixed::~Fixed() { fixed--; }
[[gnu::noinline]] Base::~Base() { deaths++; }
int live_fixed() { return fixed; }
W died() { W d = deaths; deaths = 0; return d; }

std::vector<int> iota(int from, unsigned char n) {
  std::vector<int> v;
  if (n) v.reserve(3);
  for (int i = 0; i < n; i++) v.push_back(static_cast<int>(static_cast<unsigned>(from) + 3u * static_cast<unsigned>(i)));
  return v;
}
W sum_ref(const std::vector<int>& v) { W h = v.size(); for (int x : v) h = mix(h, static_cast<W>(x)); return h; }
W sum(std::vector<int> v) { return sum_ref(v); }
void push(std::vector<int>& v, int x) { v.push_back(x); }
std::vector<int>& same(std::vector<int>& v) { v.pop_back(); return v; }
const int& at(const std::vector<int>& v, unsigned char i) { return v[i]; }
void take_over(std::vector<int>&& from, std::vector<int>* to) { *to = std::move(from); }
std::vector<unsigned char> bytes(const unsigned char* p, int n) { return std::vector<unsigned char>(p, p + n); }
bool equal(const std::vector<unsigned char>& a, std::vector<unsigned char> b) { return a == b; }
std::vector<Pt> points(int x, short y, unsigned char n) {
  std::vector<Pt> v;
  v.reserve(2);
  for (int i = 0; i < n; i++) v.push_back(Pt{x, static_cast<short>(y ^ i)});
  return v;
}
W sum_points(std::vector<Pt> v, int k) {
  W h = static_cast<W>(k) + v.size();
  for (const Pt& p : v) h = mix(mix(h, static_cast<W>(p.x)), static_cast<W>(p.y));
  return h;
}
std::vector<Tok> toks(W a, W b) { std::vector<Tok> v; v.reserve(2); v.emplace_back(a); v.emplace_back(b); return v; }
W peek_toks(const std::vector<Tok>* v) { W h = v->size(); for (const Tok& t : *v) h = mix(h, t.v()); return h; }
W sum_toks(std::vector<Tok> v) { return peek_toks(&v); }
std::vector<std::vector<int>> rows(int a, int b) {
  std::vector<std::vector<int>> v(3);
  v[0].push_back(a);
  v[2].push_back(b); v[2].push_back(a);
  return v;
}
W sum_rows(const std::vector<std::vector<int>>& v) { W h = v.size(); for (const auto& r : v) h = mix(h, sum_ref(r)); return h; }
std::vector<double*> ptrs(double* a, double* b) { std::vector<double*> v; v.push_back(a); v.push_back(b); return v; }

std::unique_ptr<int> box_int(int x, bool full) { return full ? std::make_unique<int>(x) : nullptr; }
W unbox_int(std::unique_ptr<int> p) { return p ? mix(1, static_cast<W>(*p)) : 0; }
std::unique_ptr<Tok> box_tok(W x) { return std::make_unique<Tok>(x); }
W unbox_tok(std::unique_ptr<Tok> p, int k) { return p ? mix(p->v(), static_cast<W>(k)) : 7; }
std::unique_ptr<Fixed> box_fixed(W x) { return std::make_unique<Fixed>(x); }
W read_fixed(const std::unique_ptr<Fixed>& p) { return p ? p->v() : 3; }
std::unique_ptr<Fixed>& swap_fixed(std::unique_ptr<Fixed>& p, W v) { p = std::make_unique<Fixed>(v); return p; }
std::unique_ptr<Base> box_base(W x, bool derived) {
  if (derived) return std::make_unique<Derived>(x);
  return std::make_unique<Base>(x);
}
W read_base(std::unique_ptr<Base>& p) { return p->v(); }
W unbox_base(std::unique_ptr<Base> p) { return p ? p->v() + 1 : 2; }
std::vector<std::unique_ptr<int>> boxes(int a, int b) {
  std::vector<std::unique_ptr<int>> v;
  v.reserve(3);
  v.push_back(std::make_unique<int>(a)); v.push_back(nullptr); v.push_back(std::make_unique<int>(b));
  return v;
}
W sum_boxes(std::vector<std::unique_ptr<int>> v) {
  W h = v.size();
  for (const auto& p : v) h = mix(h, p ? static_cast<W>(*p) : 9);
  return h;
}
void bump(std::atomic<int>& a, int k) { a.store(static_cast<int>(static_cast<unsigned>(a.load()) + static_cast<unsigned>(k))); }
W load8(const std::atomic<unsigned char>& a, std::atomic<unsigned long long>* b) { W x = a.load(); b->store(b->load() + x); return x; }
void point(std::atomic<int*>& a, int* p) { a.store(p); }
Holder::Holder(std::vector<int> v, std::unique_ptr<int> p) : vals(std::move(v)), one(std::move(p)), count(4) {}
Holder::~Holder() = default;
W Holder::total() const { return mix(mix(sum_ref(vals), one ? static_cast<W>(*one) : 8), static_cast<W>(count.load())); }
