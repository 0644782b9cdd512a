// Happens-before data race detector for the "race" build variant. The code under test is compiled with
// -fsanitize=thread and linked against the hooks below instead of the ThreadSanitizer runtime: threads are
// fibers of the simulator, so the set of races seen is a function of the seed alone.
#include <sim/core.h>
#include <sim/race.h>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <unordered_map>

namespace sim {
void (*on_race)(const std::string& key, const std::string& msg) = nullptr;

// ------------------------------------------------------------------ symbols (own .symtab; the binary is not position independent)
struct Sym { uint64_t a, n; const char* s; };
static std::vector<Sym>* g_syms = nullptr;
static void load_symbols() {
  if (g_syms) return;
  g_syms = new std::vector<Sym>();
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) return;
  char* m = static_cast<char*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
  close(fd);
  if (m == MAP_FAILED) return;
  Elf64_Ehdr* eh = reinterpret_cast<Elf64_Ehdr*>(m);
  Elf64_Shdr* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    const char* str = m + sh[sh[i].sh_link].sh_offset;
    Elf64_Sym* s = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++)
      if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_value) g_syms->push_back(Sym{s[k].st_value, s[k].st_size, str + s[k].st_name});
  }
  std::sort(g_syms->begin(), g_syms->end(), [](const Sym& a, const Sym& b) { return a.a < b.a; });
}
static std::string sym_name(uint64_t pc) {
  auto it = std::upper_bound(g_syms->begin(), g_syms->end(), pc, [](uint64_t v, const Sym& s) { return v < s.a; });
  if (it == g_syms->begin()) return "";
  --it;
  if (pc >= it->a + (it->n ? it->n : 1)) return "";
  int st;
  char* d = abi::__cxa_demangle(it->s, nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : it->s;
  free(d);
  return r;
}
static std::string short_name(uint64_t pc) {
  std::string s = sym_name(pc);
  for (const char* c : {"[abi:cxx11]", "(anonymous namespace)::"}) { size_t p; while ((p = s.find(c)) != std::string::npos) s.erase(p, strlen(c)); }
  // keep the qualified name, drop parameters and template arguments
  std::string o;
  int depth = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (s.compare(i, 8, "operator") == 0) { o += "operator"; i += 7; while (i + 1 < s.size() && (strchr("()<>=-+*[]!&|^%/", s[i + 1]))) { i++; if (s[i] == '(' && s[i + 1] != ')') { i--; break; } o += s[i]; if (s[i] == ')') break; } continue; }
    if (s[i] == '<') { depth++; continue; }
    if (s[i] == '>') { depth--; continue; }
    if (depth) continue;
    if (s[i] == '(') { size_t e = s.find(")::", i); if (e == std::string::npos) break; i = e; continue; }
    o += s[i];
  }
  size_t sp = o.rfind(' ');
  if (sp != std::string::npos) o = o.substr(sp + 1);
  return o;
}
static bool repo_name(const std::string& s) {
  static const char* lib[] = {"std::", "boost::", "Eigen::", "__gnu", "pcl", "ros::", "tf::", "tf2", "operator", "sensor_msgs", "geometry_msgs", "mavros", "visualization_msgs", "nav_msgs",
                              "octomap", "dynamic_reconfigure", "nodelet", "std_msgs", "trajectory_msgs", "sim::", "XmlRpc", "void", "bool", "__", "Report", "toPCL", "fromPCL"};
  if (s.empty()) return false;
  for (auto l : lib) if (s.compare(0, strlen(l), l) == 0) return false;
  return true;
}
static std::unordered_map<uint64_t, bool>* g_isrepo = nullptr;
static bool is_repo(uint64_t pc) {
  if (!g_isrepo) g_isrepo = new std::unordered_map<uint64_t, bool>();
  auto it = g_isrepo->find(pc);
  if (it != g_isrepo->end()) return it->second;
  bool r = repo_name(short_name(pc));
  (*g_isrepo)[pc] = r;
  return r;
}

// The library templates used in this file may be the instrumented copies: hooks do nothing while this is set.
static bool g_busy = false;
struct Busy { bool was; Busy() : was(g_busy) { g_busy = true; } ~Busy() { g_busy = was; } };

// ------------------------------------------------------------------ clocks
typedef std::vector<uint32_t> VC;
struct Thr { VC vc; uint64_t stack[512]; uint64_t repo[512]; int depth = 0; };
static std::vector<Thr*>* g_thr = nullptr;
static std::unordered_map<const void*, VC>* g_sync = nullptr;
static Thr* thr(int id) {
  if (!g_thr) g_thr = new std::vector<Thr*>();
  while (static_cast<int>(g_thr->size()) <= id) g_thr->push_back(nullptr);
  Thr*& t = (*g_thr)[static_cast<size_t>(id)];
  if (!t) { t = new Thr(); t->vc.resize(static_cast<size_t>(id) + 1); t->vc[static_cast<size_t>(id)] = 1; }
  return t;
}
static void join_vc(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}
void race_acquire(const void* k) {
  Busy busy;
  int id = cur_id();
  if (!id || !active()) return;
  if (!g_sync) return;
  auto it = g_sync->find(k);
  if (it != g_sync->end()) join_vc(thr(id)->vc, it->second);
}
void race_release(const void* k) {
  Busy busy;
  int id = cur_id();
  if (!id || !active()) return;
  if (!g_sync) g_sync = new std::unordered_map<const void*, VC>();
  Thr* t = thr(id);
  join_vc((*g_sync)[k], t->vc);
  t->vc[static_cast<size_t>(id)]++;
}
void race_reset(const void* k) { Busy busy; if (g_sync) g_sync->erase(k); }
void race_spawn(int child) {
  Busy busy;
  int id = cur_id();
  if (!id) return;
  Thr* c = thr(child);
  Thr* t = thr(id);
  join_vc(c->vc, t->vc);
  t->vc[static_cast<size_t>(id)]++;
}
void race_join(int child) {
  Busy busy;
  int id = cur_id();
  if (!id) return;
  join_vc(thr(id)->vc, thr(child)->vc);
}

// ------------------------------------------------------------------ shadow
struct Cell { uint32_t pc, fn, clk; uint16_t fid; uint8_t meta, pad; };  // meta: first byte (3) | last byte (3) | write | atomic
static const int NC = 4;
static const uint64_t PSH = 12;
struct Page { Cell c[(1 << PSH) / 8][NC]; };
struct Slot { uint64_t key; Page* p; };
static Slot* g_tab = nullptr;
static size_t g_cap = 0, g_cnt = 0;
static char* g_arena = nullptr;
static size_t g_left = 0;
static uint32_t g_rr = 0;
static uint64_t g_checked = 0;
uint64_t race_checked() { return g_checked; }
static Slot* find_slot(uint64_t key) {
  size_t i = (key * 0x9E3779B97F4A7C15ULL >> 20) & (g_cap - 1);
  while (g_tab[i].p && g_tab[i].key != key) i = (i + 1) & (g_cap - 1);
  return &g_tab[i];
}
static Page* page(uint64_t a, bool create) {
  uint64_t key = a >> PSH;
  static Slot cache[1024];
  Slot& q = cache[key & 1023];
  if (q.key == key && q.p) return q.p;
  if (!g_tab) {
    if (!create) return nullptr;
    g_cap = 1 << 16;
    g_tab = static_cast<Slot*>(mmap(nullptr, g_cap * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  Slot* s = find_slot(key);
  if (!s->p) {
    if (!create || g_cnt * 2 > g_cap) return nullptr;
    if (g_left < sizeof(Page)) {
      g_left = sizeof(Page) * 256;
      g_arena = static_cast<char*>(mmap(nullptr, g_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (g_arena == MAP_FAILED) { g_left = 0; return nullptr; }
    }
    s->key = key;
    s->p = reinterpret_cast<Page*>(g_arena);
    g_arena += sizeof(Page);
    g_left -= sizeof(Page);
    g_cnt++;
  }
  q = *s;
  return q.p;
}
void race_forget(const void* p, size_t n) {
  if (!g_tab || !n) return;
  uint64_t a = reinterpret_cast<uint64_t>(p) & ~7ULL, e = (reinterpret_cast<uint64_t>(p) + n + 7) & ~7ULL;
  while (a < e) {
    uint64_t pe = std::min<uint64_t>(e, (a | ((1ULL << PSH) - 1)) + 1);
    if (Page* g = page(a, false)) memset(g->c[(a & ((1ULL << PSH) - 1)) >> 3], 0, static_cast<size_t>((pe - a) / 8) * NC * sizeof(Cell));
    a = pe;
  }
}

static std::set<std::string>* g_seen = nullptr;
static void report(Thr* t, int id, uint64_t addr, const Cell& old, uint32_t pc, uint32_t fn, bool write, bool atomic) {
  if (!same_process(id, old.fid)) return;  // a static variable: every process has its own
  NoPreempt np;
  std::string a = fn ? short_name(fn) : short_name(pc), b = old.fn ? short_name(old.fn) : short_name(old.pc);
  if (a.empty()) a = "?";
  if (b.empty()) b = "?";
  std::string key = "race:" + std::min(a, b) + "/" + std::max(a, b);
  if (!g_seen) g_seen = new std::set<std::string>();
  if (!g_seen->insert(key).second) return;
  char m[900];
  std::string path;
  for (int i = t->depth - 1; i >= 0 && i > t->depth - 6 && i < 512; i--) path += " <- " + short_name(t->stack[i]);
  snprintf(m, sizeof m, "data race: thread f%d %s%s in %s (pc %#x) and thread f%d %s%s in %s (pc %#x) touch the same memory with nothing ordering them; second access reached by%s", id,
           atomic ? "atomically " : "", write ? "writes" : "reads", a.c_str(), pc, old.fid, old.meta & 128 ? "atomically " : "", old.meta & 64 ? "wrote" : "read", b.c_str(), old.pc, path.c_str());
  (void)addr;
  if (on_race) on_race(key, m);
}

static inline void access1(uint64_t a, unsigned n, bool write, bool atomic, uint32_t pc) {
  // within one 8-byte granule
  int id = cur_id();
  Page* g = page(a, true);
  if (!g) return;
  g_checked++;
  Thr* t = thr(id);
  uint32_t fn = t->depth > 0 && t->depth <= 512 ? static_cast<uint32_t>(t->repo[t->depth - 1]) : 0;
  unsigned f = a & 7, l = f + n - 1;
  uint8_t meta = static_cast<uint8_t>(f | l << 3 | (write ? 64 : 0) | (atomic ? 128 : 0));
  Cell* c = g->c[(a & ((1ULL << PSH) - 1)) >> 3];
  int put = -1;
  const uint32_t now = t->vc[static_cast<size_t>(id)];
  for (int i = 0; i < NC; i++)  // repeated
    if (c[i].clk == now && c[i].fid == id && c[i].meta == meta) return;
  for (int i = 0; i < NC; i++) {
    Cell& o = c[i];
    if (!o.clk) { if (put < 0) put = i; continue; }
    unsigned of = o.meta & 7, ol = (o.meta >> 3) & 7;
    if (of > l || ol < f) continue;
    bool ow = o.meta & 64, oa = o.meta & 128;
    bool ordered = o.fid == id || (o.fid < t->vc.size() && o.clk <= t->vc[o.fid]);
    if (!ordered) {
      if ((write || ow) && !(atomic && oa)) report(t, id, a, o, pc, fn, write, atomic);
      continue;
    }
    // an ordered access that the new one subsumes is replaced
    if (of >= f && ol <= l && (write || !ow) && (!atomic || oa)) { if (put < 0) put = i; else o.clk = 0; }
  }
  if (put < 0) put = static_cast<int>(g_rr++ % NC);
  c[put] = Cell{pc, fn, now, static_cast<uint16_t>(id), meta, 0};
}
bool race_track = true;
static inline bool on() { return race_track && !g_busy && active() && in_fiber() && !preempt_off(); }
static uint8_t g_stack_shared[1 << 19];  // per 4 KiB of the fibers' stacks: another thread has been there
static void access(const void* p, size_t n, bool write, bool atomic, void* ra) {
  if (!on()) return;
  // variables on the own stack: only where another thread has been (a node object that lives in main's frame)
  const uint64_t off = (reinterpret_cast<uint64_t>(p) - 0x200000000000ULL) >> 12;
  if (off < sizeof g_stack_shared) {
    if (!on_own_stack(p)) g_stack_shared[off] = 1;
    else if (!g_stack_shared[off]) return;
  }
  Busy busy;
  uint64_t a = reinterpret_cast<uint64_t>(p), e = a + n;
  uint32_t pc = static_cast<uint32_t>(reinterpret_cast<uint64_t>(ra));
  while (a < e) {
    uint64_t ge = std::min<uint64_t>(e, (a | 7) + 1);
    access1(a, static_cast<unsigned>(ge - a), write, atomic, pc);
    a = ge;
  }
}
void race_access(const void* p, size_t n, bool write) { access(p, n, write, false, __builtin_return_address(0)); }
}  // namespace sim

using namespace sim;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() { __libc_single_threaded = 0; Busy busy; load_symbols(); }
void __tsan_func_entry(void*) {
  if (!race_track || g_busy || !active() || !in_fiber()) return;
  Busy busy;
  Thr* t = thr(cur_id());
  if (t->depth < 512) {
    uint64_t pc = reinterpret_cast<uint64_t>(RA);
    t->stack[t->depth] = pc;
    t->repo[t->depth] = is_repo(pc) ? pc : t->depth > 0 ? t->repo[t->depth - 1] : 0;
  }
  t->depth++;
}
void __tsan_func_exit() {
  if (!race_track || g_busy || !active() || !in_fiber()) return;
  Busy busy;
  Thr* t = thr(cur_id());
  if (t->depth > 0) t->depth--;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, false, RA); } \
  void __tsan_write##n(void* p) { access(p, n, true, false, RA); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, RA); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, RA); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, false, RA); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false, RA); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, RA); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, false, RA); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n <= 4096) { access(s, n, false, false, RA); access(d, n, true, false, RA); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n <= 4096) { access(s, n, false, false, RA); access(d, n, true, false, RA); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n <= 4096) access(d, n, true, false, RA); return memset(d, c, n); }

static inline void acq(const volatile void* p, int mo) { if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) race_acquire(const_cast<const void*>(p)); }
static inline void rel(const volatile void* p, int mo) { if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) race_release(const_cast<const void*>(p)); }
#define RMW(T, n, name, expr) \
  T __tsan_atomic##n##_##name(volatile T* p, T v, int mo) { point(); access(const_cast<T*>(p), sizeof(T), true, true, RA); acq(p, mo); T o = *p; *p = static_cast<T>(expr); rel(p, mo); return o; }
#define AT(T, n) \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { point(); access(const_cast<const T*>(p), sizeof(T), false, true, RA); acq(p, mo); return *p; } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { point(); access(const_cast<T*>(p), sizeof(T), true, true, RA); rel(p, mo); *p = v; } \
  RMW(T, n, exchange, v) RMW(T, n, fetch_add, o + v) RMW(T, n, fetch_sub, o - v) RMW(T, n, fetch_and, o & v) RMW(T, n, fetch_or, o | v) RMW(T, n, fetch_xor, o ^ v) RMW(T, n, fetch_nand, ~(o & v)) \
  static int cas##n(volatile T* p, T* c, T v, int mo, int fmo, void* ra) { \
    point(); bool ok = *p == *c; access(const_cast<T*>(p), sizeof(T), ok, true, ra); acq(p, ok ? mo : fmo); \
    if (ok) { *p = v; rel(p, mo); return 1; } *c = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { return cas##n(p, c, v, mo, fmo, RA); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return cas##n(p, c, v, mo, fmo, RA); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { cas##n(p, &c, v, mo, fmo, RA); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) { if (mo != __ATOMIC_RELAXED) { race_acquire(&g_fence); race_release(&g_fence); } }
void __tsan_atomic_signal_fence(int) {}

// freshly allocated memory has no history
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
// nor a content that could be relied on: it is filled, so that a run does not depend on what was there before
unsigned char sim_heap_fill = 0xbe;
static inline void fresh(void* p, size_t n) { memset(p, sim_heap_fill, n < 4096 ? n : 4096); race_forget(p, n); }
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) fresh(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) race_forget(p, a * b); return p; }
void* realloc(void* o, size_t n) { void* p = __libc_realloc(o, n); if (p && p != o) race_forget(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return 12; *r = p; return 0; }
}
