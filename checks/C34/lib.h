// std::vector, std::unique_ptr and std::atomic in the signatures and members of bound items.
#ifndef VP_C34_LIB_H_
#define VP_C34_LIB_H_
#pragma clang lifetime_elision
#include <atomic>
#include <cstdint>
#include <memory>
#include <vector>
#include "support/annotations.h"
using W = std::uint64_t;
inline W mix(W h, W x) { return ((h << 11) | (h >> 53)) + x; }
struct Pt { int x; short y; };
class [[clang::trivial_abi]] Tok {
 public:
  explicit Tok(W x);
  Tok(const Tok&);
  Tok(Tok&&);
  Tok& operator=(const Tok&);
  Tok& operator=(Tok&&);
  ~Tok();
  W v() const { return *p_; }
 private:
  W* p_;
};
class Fixed {
 public:
  explicit Fixed(W v);
  Fixed(const Fixed&) = delete;
  ~Fixed();
  W v() const { return v_; }
  W me() const { return reinterpret_cast<W>(this); }
  W v_;
};
class Base {
 public:
  explicit Base(W b) : b_(b) {}
  virtual ~Base();
  virtual W v() const { return b_; }
  W b_;
};
int live_fixed();
W died();

// vectors of numbers
std::vector<int> iota(int from, unsigned char n);
W sum(std::vector<int> v);
W sum_ref(const std::vector<int>& v);
void push(std::vector<int>& v, int x);
std::vector<int>& same(std::vector<int>& v);
const int& at(const std::vector<int>& v, unsigned char i);
void take_over(std::vector<int>&& from, std::vector<int>* to);
std::vector<unsigned char> bytes(const unsigned char* p, int n);
bool equal(const std::vector<unsigned char>& a, std::vector<unsigned char> b);
// of structs, owners, vectors
std::vector<Pt> points(int x, short y, unsigned char n);
W sum_points(std::vector<Pt> v, int k);
std::vector<Tok> toks(W a, W b);
W sum_toks(std::vector<Tok> v);
W peek_toks(const std::vector<Tok>* v);
std::vector<std::vector<int>> rows(int a, int b);
W sum_rows(const std::vector<std::vector<int>>& v);
std::vector<double*> ptrs(double* a, double* b);

// owning pointers
std::unique_ptr<int> box_int(int x, bool full);
W unbox_int(std::unique_ptr<int> p);
std::unique_ptr<Tok> box_tok(W x);
W unbox_tok(std::unique_ptr<Tok> p, int k);
std::unique_ptr<Fixed> box_fixed(W x);
W read_fixed(const std::unique_ptr<Fixed>& p);
std::unique_ptr<Fixed>& swap_fixed(std::unique_ptr<Fixed>& p, W v);
std::unique_ptr<Base> box_base(W x, bool derived);
W read_base(std::unique_ptr<Base>& p);
W unbox_base(std::unique_ptr<Base> p);
std::vector<std::unique_ptr<int>> boxes(int a, int b);
W sum_boxes(std::vector<std::unique_ptr<int>> v);

// atomics
void bump(std::atomic<int>& a, int k);
W load8(const std::atomic<unsigned char>& a, std::atomic<unsigned long long>* b);
void point(std::atomic<int*>& a, int* p);

// members
class Holder {
 public:
  explicit Holder(std::vector<int> v, std::unique_ptr<int> p);
  ~Holder();
  std::vector<int> take() { return std::move(vals); }
  const std::vector<int>& view() const { return vals; }
  void give(std::unique_ptr<int> p) { one = std::move(p); }
  std::unique_ptr<int> drop_one() { return std::move(one); }
  W total() const;
  std::vector<int> vals;
  std::unique_ptr<int> one;
  std::atomic<int> count;
};
#endif
