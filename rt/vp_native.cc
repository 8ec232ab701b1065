// Native replay runtime: runs one harness per child process over recorded inputs.
// stdin: lines "<harness> <n> v1 ... vn"; stdout: one line per trace:
//   "<end> <nout> o1 ... on #<detail>" with end in ok|assert|assume|abort|signal|hang|inputs|memory
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <new>

struct VpEntry { const char* name; void (*fn)(); };
extern const VpEntry vp_table[];

namespace {
struct Shared {
  int end;  // 0 running 1 ok 2 assert 3 assume 4 inputs 5 memory
  int id, expect_abort, nout;
  uint64_t outs[4096];
  char msg[256];
};
Shared* sh;
uint64_t* ins;
size_t nin, pos;
int live;

[[noreturn]] void finish(int end, int id, const char* msg = "") {
  if (sh->end == 0) {
    sh->end = end;
    sh->id = id;
    snprintf(sh->msg, sizeof sh->msg, "%s", msg);
  }
  _exit(0);
}
uint64_t next_input() {
  if (pos >= nin) finish(4, 0, "ran out of recorded inputs");
  return ins[pos++];
}
constexpr uint64_t kMagic = 0x5650414c4c4f4331;
struct Hdr { uint64_t magic, size, align, kind; };
void* get(size_t size, size_t align, uint64_t kind) {
#ifdef VP_ASAN
  ++live;
  return align <= 16 ? malloc(size) : aligned_alloc(align, (size + align - 1) / align * align);
#endif
  size_t want = align;
  if (align < 32) align = 32;
  char* raw = static_cast<char*>(aligned_alloc(align, ((sizeof(Hdr) + align - 1) / align * align + size + align) / align * align));
  size_t off = (sizeof(Hdr) + align - 1) / align * align;
  char* p = raw + off;
  Hdr* h = reinterpret_cast<Hdr*>(p - sizeof(Hdr));
  h->magic = kMagic; h->size = size; h->align = want; h->kind = kind;
  ++live;
  return p;
}
void put(void* p, long size, long align, uint64_t kind) {
  if (!p) return;
#ifdef VP_ASAN
  --live;
  free(p);
  return;
#endif
  Hdr* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - sizeof(Hdr));
  if (h->magic != kMagic) finish(5, 0, "free of a pointer that is not a live heap block");
  if (h->kind != kind) finish(5, 0, "block released by the wrong deallocator");
  if (size >= 0 && static_cast<uint64_t>(size) != h->size) finish(5, 0, "block released with the wrong size");
  if (align >= 0 && static_cast<uint64_t>(align) != h->align) finish(5, 0, "block released with the wrong alignment");
  h->magic = 0xdeaddeaddeaddead;
  --live;
  size_t al = h->align < 32 ? 32 : h->align;
  size_t off = (sizeof(Hdr) + al - 1) / al * al;
  free(static_cast<char*>(p) - off);
}
}  // namespace

extern "C" {
uint64_t vp_sym(int) { return next_input(); }
void vp_sym_bytes(void* p, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(p)[i] = next_input(); }
int vp_pick(int) { return static_cast<int>(next_input()); }
void vp_assume(bool c) { if (!c) finish(3, 0); }
void vp_assert(bool c, int id) { if (!c) finish(2, id); }
void vp_reach(int) {}
void vp_out(uint64_t v) { if (sh->nout < 4096) sh->outs[sh->nout++] = v; }
void vp_expect_abort(bool c) { sh->expect_abort = c; }
int vp_live_heap(void) { return live; }
void* vp_rust_alloc(size_t size, size_t align, bool zeroed) {
  void* p = get(size, align, 2);
  if (zeroed) memset(p, 0, size);
  return p;
}
void vp_rust_dealloc(void* p, size_t size, size_t align) { put(p, size, align, 2); }
void* vp_rust_realloc(void* p, size_t size, size_t align, size_t nw) {
  void* q = get(nw, align, 2);
  memcpy(q, p, size < nw ? size : nw);
  put(p, size, align, 2);
  return q;
}
}
#ifndef VP_ASAN
void* operator new(size_t n) { return get(n, 16, 1); }
void* operator new[](size_t n) { return get(n, 16, 1); }
void* operator new(size_t n, std::align_val_t a) { return get(n, static_cast<size_t>(a), 1); }
void operator delete(void* p) noexcept { put(p, -1, -1, 1); }
void operator delete[](void* p) noexcept { put(p, -1, -1, 1); }
void operator delete(void* p, size_t n) noexcept { put(p, n, -1, 1); }
void operator delete[](void* p, size_t n) noexcept { put(p, n, -1, 1); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, -1, static_cast<size_t>(a), 1); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { put(p, n, static_cast<size_t>(a), 1); }
#endif

int main(int argc, char** argv) {
  unsigned limit = argc > 1 ? atoi(argv[1]) : 10;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  static char name[512];
  size_t n;
  while (scanf("%500s %zu", name, &n) == 2) {
    ins = static_cast<uint64_t*>(calloc(n + 1, 8));
    for (size_t i = 0; i < n; ++i) { unsigned long long v; if (scanf("%llu", &v) != 1) return 3; ins[i] = v; }
    nin = n;
    void (*fn)() = nullptr;
    for (const VpEntry* e = vp_table; e->name; ++e) if (!strcmp(e->name, name)) fn = e->fn;
    if (!fn) { printf("nofn 0 #%s\n", name); free(ins); continue; }
    memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      pos = 0; live = 0;
      alarm(limit);
      fn();
      finish(1, 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    const char* end = "ok";
    char det[400] = "";
    if (sh->end == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) end = "hang";
    else if (sh->end == 0 && WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      end = (sg == SIGABRT || sg == SIGILL || sg == SIGTRAP) ? "abort" : "signal";
      snprintf(det, sizeof det, "signal %d", sg);
    } else if (sh->end == 0) { end = "memory"; snprintf(det, sizeof det, "exit status %d", WEXITSTATUS(st)); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { end = "memory"; snprintf(det, sizeof det, "exit status %d", WEXITSTATUS(st)); }
    else if (sh->end == 2) { end = "assert"; snprintf(det, sizeof det, "%d", sh->id); }
    else if (sh->end == 3) end = "assume";
    else if (sh->end == 4) end = "inputs";
    else if (sh->end == 5) { end = "memory"; snprintf(det, sizeof det, "%s", sh->msg); }
    printf("%s %d %d", end, sh->expect_abort, sh->nout);
    for (int i = 0; i < sh->nout; ++i) printf(" %llu", static_cast<unsigned long long>(sh->outs[i]));
    printf(" #%s\n", det);
    fflush(stdout);
    free(ins);
  }
}
