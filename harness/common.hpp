// Shared by every C++ harness: seeded generator, independent reference codec, statistics, violation reports.
// Nothing in this file includes or uses the library under test.
#pragma once

#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

typedef unsigned char u8;
typedef std::uint16_t u16;
typedef std::uint32_t u32;
typedef std::uint64_t u64;
typedef std::int8_t i8;
typedef std::int16_t i16;
typedef std::int32_t i32;
typedef std::int64_t i64;
typedef __int128 i128;
typedef std::vector<u8> Bytes;
typedef std::vector<i128> Flat;

#if defined(__GNUC__)
#define PRINTF_LIKE(a, b) __attribute__((format(printf, a, b)))
#else
#define PRINTF_LIKE(a, b)
#endif

//---------------------------------------------------------------- text helpers

inline std::string strf(const char *fmt, ...) PRINTF_LIKE(1, 2);
inline std::string strf(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
inline std::string hex(const u8 *p, std::size_t n) {
  std::string s;
  for (std::size_t i = 0; i < n && i < 200; i++)
    s += strf("%02x", p[i]);
  if (n > 200)
    s += strf("...(%zu)", n);
  return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
inline std::string dec(i128 v) {
  if (v < 0)
    return "-" + dec(-v);
  if (v < 10)
    return std::string(1, char('0' + int(v)));
  return dec(v / 10) + char('0' + int(v % 10));
}
inline std::string dec(const Flat &f) {
  std::string s = "(";
  for (std::size_t i = 0; i < f.size(); i++)
    s += (i ? "," : "") + dec(f[i]);
  return s + ")";
}
inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += char(c);
    else if (c < 32 || c > 126)
      r += strf("\\u%04x", c);
    else
      r += char(c);
  }
  return r + "\"";
}

//---------------------------------------------------------------- random numbers

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline u64 hash_add(u64 h, u64 x) {
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}
inline u64 hash_bytes(u64 h, const u8 *p, std::size_t n) {
  for (std::size_t i = 0; i < n; i++)
    h = hash_add(h, p[i]);
  return hash_add(h, n);
}
inline u64 hash_str(const std::string &s) { return hash_bytes(7, (const u8 *)s.data(), s.size()); }

//---------------------------------------------------------------- statistics and reports

struct Stats {
  u64 evaluations = 0;
  std::unordered_set<u64> distinct;
  std::map<const char *, u64> fast_events; // by address of the literal
  std::map<std::string, u64> events;
  std::vector<std::string> samples;
  std::string current; // what is being done, for crash reports
  int violations = 0;
  int max_samples = 6;

  void ev(const char *name, u64 n = 1) { fast_events[name] += n; }
  void merge() {
    for (auto &e : fast_events)
      events[e.first] += e.second;
    fast_events.clear();
  }
  void state(u64 h) { distinct.insert(h); }
  void sample(const std::string &s) {
    if ((int)samples.size() < max_samples)
      samples.push_back(s);
  }
  bool wants_sample() const { return (int)samples.size() < max_samples; }
};

#ifdef THREADED // each thread has its own statistics, log and transcript
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif

inline Stats &st() {
  static PER_THREAD Stats *s = new Stats;
  return *s;
}

//! Print what was being done when a sanitizer or a signal ends the process
inline void dump_current() {
  std::fflush(stdout);
  std::fprintf(stderr, "\nCURRENT-CASE %s\n", st().current.c_str());
  std::fflush(stderr);
}

inline void print_stats() {
  Stats &s = st();
  s.merge();
  std::printf("STATS {\"evaluations\":%llu,\"distinct\":%llu,\"violations\":%d,\"events\":{",
              (unsigned long long)s.evaluations,
              (unsigned long long)s.distinct.size(),
              s.violations);
  bool first = true;
  for (auto &e : s.events) {
    std::printf("%s%s:%llu", first ? "" : ",", jstr(e.first).c_str(), (unsigned long long)e.second);
    first = false;
  }
  std::printf("},\"samples\":[");
  first = true;
  for (auto &e : s.samples) {
    std::printf("%s%s", first ? "" : ",", jstr(e).c_str());
    first = false;
  }
  std::printf("]}\n");
  std::fflush(stdout);
}

//! Report a violation: the kind is a short stable identifier, the detail tells the failing input or history
inline void violation(const std::string &kind, const std::string &detail) {
  Stats &s = st();
#ifdef ONLY_KIND // what else may be wrong is judged by other properties
  if (kind != ONLY_KIND) {
    s.ev("deviations of another sort, which are not judged here");
    return;
  }
#endif
  s.violations++;
  std::printf("FOUND {\"kind\":%s,\"detail\":%s,\"case\":%s}\n",
              jstr(kind).c_str(),
              jstr(detail).c_str(),
              jstr(s.current).c_str());
  std::fflush(stdout);
  if (s.violations >= 8) {
    print_stats();
    std::_Exit(3);
  }
}

#define EXPECT(cond, kind, ...)                                                                                        \
  do {                                                                                                                 \
    if (!(cond))                                                                                                       \
      violation(kind, strf(__VA_ARGS__));                                                                              \
  } while (0)

//---------------------------------------------------------------- command line

struct Options {
  u64 seed = 1;
  u64 scale = 1;
  bool thorough = false;
  std::string prop;
  int fill = -1; // content of the memory objects are constructed in, when not negative
  bool transcript = false;
};

inline Options &opt() {
  static Options o;
  return o;
}

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

void check_alloc_monitor();
inline void init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed")
      opt().seed = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--scale")
      opt().scale = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--thorough")
      opt().thorough = true;
    else if (a == "--fill")
      opt().fill = std::atoi(argv[++i]);
    else if (a == "--transcript")
      opt().transcript = true;
    else if (a == "--prop")
      opt().prop = argv[++i];
  }
  if (&__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(dump_current);
  if (opt().transcript)
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16); // nothing is lost in a crash
  if (opt().fill >= 0)
    mallopt(M_PERTURB, ~opt().fill & 0xff); // new blocks are filled as well
  check_alloc_monitor();
}
//! Properties whose workload is asked for
inline std::vector<std::string> asked() {
  std::vector<std::string> l(1);
  for (char c : opt().prop) {
    if (c == '+')
      l.emplace_back();
    else
      l.back() += c;
  }
  return l;
}

//---------------------------------------------------------------- transcripts

// What can be observed from outside goes through a rolling hash, which is printed now and then: runs which are supposed
// to be the same are compared afterwards
struct Transcript {
  u64 hash = 1, n = 0, lines = 0;
};
inline Transcript &transcript() {
  static PER_THREAD Transcript t;
  return t;
}
inline void tr_line(const char *end) {
  Transcript &t = transcript();
  if (opt().transcript)
    std::printf("T %llu %016llx%s %s\n", (unsigned long long)t.n, (unsigned long long)t.hash, end, st().current.substr(0, 200).c_str());
  t.lines++;
}
inline void tr(u64 x) {
#ifdef TRANSCRIPT
  Transcript &t = transcript();
  t.hash = hash_add(t.hash, x);
  t.n++;
  if (t.n % (t.n < 100000 ? 200 : 5000) == 0)
    tr_line("");
#else
  (void)x;
#endif
}
inline void tr(const Flat &f) {
  for (auto x : f)
    tr(u64(x));
  tr(u64(f.size()));
}
inline void tr(const u8 *p, std::size_t n) {
  for (std::size_t i = 0; i < n; i++)
    tr(u64(p[i]));
  tr(u64(n));
}

//---------------------------------------------------------------- what is uninitialized

#ifdef UNDER_VALGRIND
#include <valgrind/memcheck.h>
inline void undefined(void *p, std::size_t n) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
inline void must_be_defined(const void *p, std::size_t n) {
  if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) {
    u8 *q = const_cast<u8 *>(static_cast<const u8 *>(p));
    (void)VALGRIND_MAKE_MEM_DEFINED(q, n); // one report is enough
    violation("uninitialized", "a byte which was never written reaches the user");
  }
}
inline u64 valgrind_errors() { return VALGRIND_COUNT_ERRORS; }
#else
inline void undefined(void *, std::size_t) {}
inline void must_be_defined(const void *, std::size_t) {}
inline u64 valgrind_errors() { return 0; }
#endif

//! What reaches the user: it must come from what was given, and be the same in runs which are to be the same
inline void observe(const u8 *p, std::size_t n) {
  must_be_defined(p, n);
  tr(p, n);
}
inline void observe(const Bytes &b) { observe(b.data(), b.size()); }
inline void observe(const Flat &f) {
  must_be_defined(f.data(), f.size() * sizeof(i128));
  tr(f);
}

//! Memory for an object, with the content which is asked for
inline void prefill(void *p, std::size_t n, u8 fill) {
  std::memset(p, opt().fill >= 0 ? opt().fill : fill, n);
  undefined(p, n);
}
//! The stack which the next calls are going to use
inline __attribute__((noinline)) void dirty_stack() {
  if (opt().fill < 0)
    return;
  volatile u8 junk[6000];
  for (std::size_t i = 0; i < sizeof junk; i++)
    junk[i] = u8(opt().fill);
  undefined(const_cast<u8 *>(junk), sizeof junk);
}

void note_scopes();
inline int finish() {
  note_scopes();
#ifdef TRANSCRIPT
  tr_line(" end");
  if (transcript().n)
    st().ev("observations in the transcript", transcript().n);
#endif
  print_stats();
  return st().violations ? 3 : 0;
}

//---------------------------------------------------------------- reference codec (arithmetic only)

enum Mode { SM = 0, OC = 1, TC = 2, OB = 3 };

struct Fmt {
  bool big;
  int mode;
};

inline std::string fmt_name(Fmt f) {
  static const char *m[] = {"sign-magnitude", "ones-complement", "twos-complement", "offset-binary"};
  return std::string(f.big ? "big" : "little") + "/" + m[f.mode];
}

struct Scalar {
  unsigned size; // bytes
  bool sgn;
  bool boolean;
};

inline i128 pow2(unsigned n) { return i128(1) << n; }
inline i128 scalar_min(Scalar s) { return s.sgn ? -pow2(8 * s.size - 1) : 0; }
inline i128 scalar_max(Scalar s) { return s.boolean ? 1 : s.sgn ? pow2(8 * s.size - 1) - 1 : pow2(8 * s.size) - 1; }
inline bool representable(i128 v, Scalar s, Fmt f) {
  if (v < scalar_min(s) || v > scalar_max(s))
    return false;
  return !(s.sgn && (f.mode == SM || f.mode == OC) && v == scalar_min(s));
}
inline void ref_encode(Bytes &out, i128 v, Scalar s, Fmt f) {
  const unsigned bits = 8 * s.size;
  i128 u = v;
  if (s.sgn) {
    if (f.mode == SM)
      u = v < 0 ? pow2(bits - 1) - v : v;
    else if (f.mode == OC)
      u = v < 0 ? pow2(bits) - 1 + v : v;
    else if (f.mode == TC)
      u = v < 0 ? pow2(bits) + v : v;
    else
      u = v + pow2(bits - 1);
  }
  for (unsigned i = 0; i < s.size; i++) {
    unsigned byte_rank = f.big ? s.size - 1 - i : i;
    i128 q = u;
    for (unsigned k = 0; k < byte_rank; k++)
      q /= 256;
    out.push_back(u8(q % 256));
  }
}
inline i128 ref_decode(const u8 *p, Scalar s, Fmt f) {
  const unsigned bits = 8 * s.size;
  i128 u = 0;
  for (unsigned i = 0; i < s.size; i++)
    u = u * 256 + p[f.big ? i : s.size - 1 - i];
  if (s.boolean)
    return u != 0;
  if (!s.sgn)
    return u;
  const i128 half = pow2(bits - 1);
  switch (f.mode) {
  case SM:
    return u >= half ? -(u - half) : u;
  case OC:
    return u >= half ? -(pow2(bits) - 1 - u) : u;
  case TC:
    return u >= half ? u - pow2(bits) : u;
  default:
    return u - half;
  }
}
inline std::size_t ref_size(const std::vector<Scalar> &l) {
  std::size_t n = 0;
  for (auto s : l)
    n += s.size;
  return n;
}
inline Bytes ref_encode(const Flat &v, const std::vector<Scalar> &l, Fmt f) {
  Bytes b;
  for (std::size_t i = 0; i < l.size(); i++)
    ref_encode(b, v[i], l[i], f);
  return b;
}
inline Flat ref_decode(const u8 *p, const std::vector<Scalar> &l, Fmt f) {
  Flat r;
  for (auto s : l) {
    r.push_back(ref_decode(p, s, f));
    p += s.size;
  }
  return r;
}

//! Random value of a scalar, representable in the format, biased towards boundaries
inline i128 gen_value(Rng &g, Scalar s, Fmt f) {
  for (;;) {
    i128 v;
    const i128 lo = scalar_min(s), hi = scalar_max(s);
    switch (g.below(8)) {
    case 0:
      v = lo + i128(g.below(3));
      break;
    case 1:
      v = hi - i128(g.below(3));
      break;
    case 2:
      v = i128(g.below(5)) - 2;
      break;
    case 3: { // around a power of two
      unsigned k = unsigned(g.below(8 * s.size));
      v = pow2(k) + i128(g.below(3)) - 1;
      if (g.chance(1, 2))
        v = -v;
      break;
    }
    default: { // any number of significant bits
      u64 r = g.next() >> g.below(8 * s.size);
      v = lo + i128(r);
      if (g.chance(1, 2))
        v = i128(r >> (64 - 8 * s.size > 63 ? 63 : 64 - 8 * s.size));
      if (s.sgn && g.chance(1, 2))
        v = -v;
    }
    }
    if (v >= lo && v <= hi && representable(v, s, f))
      return v;
  }
}
inline Flat gen_values(Rng &g, const std::vector<Scalar> &l, Fmt f) {
  Flat r;
  for (auto s : l)
    r.push_back(gen_value(g, s, f));
  return r;
}
inline u8 gen_byte(Rng &g) {
  static const u8 edge[] = {0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  return g.chance(1, 2) ? edge[g.below(sizeof edge)] : u8(g.next());
}

//---------------------------------------------------------------- guarded memory

//! Heap block of exactly n bytes between two canaries (AddressSanitizer also guards the outside of the block)
struct Guarded {
  enum { G = 24 };
  Bytes mem;
  std::size_t n;
  explicit Guarded(std::size_t n, u8 fill = 0xA5) : mem(n + 2 * G, fill), n(n) {
    for (int i = 0; i < G; i++)
      mem[i] = u8(0xC0 + i), mem[G + n + i] = u8(0x30 + i);
  }
  u8 *data() { return mem.data() + G; }
  bool intact() const {
    for (int i = 0; i < G; i++)
      if (mem[i] != u8(0xC0 + i) || mem[G + n + i] != u8(0x30 + i))
        return false;
    return true;
  }
};

//---------------------------------------------------------------- dynamic allocation (-DALLOC_MONITOR)

// LIB("what") watches the allocations until the end of the scope, USER excludes what user code called back does
#ifdef ALLOC_MONITOR
#include <cerrno>
#include <malloc.h>
struct AllocState {
  bool armed;
  u64 allocations, bytes, scopes;
};
inline AllocState &alloc_state() {
  static thread_local AllocState s = {false, 0, 0, 0};
  return s;
}
struct LibScope {
  const char *what;
  bool before;
  explicit LibScope(const char *w) : what(w), before(alloc_state().armed) {
    alloc_state().armed = true;
    alloc_state().scopes++;
  }
  ~LibScope() {
    AllocState &a = alloc_state();
    a.armed = before;
    if (a.allocations && !before) {
      const u64 n = a.allocations, b = a.bytes;
      a.allocations = a.bytes = 0;
      violation("allocation", strf("%s allocates memory: %llu blocks, %llu bytes", what, (unsigned long long)n, (unsigned long long)b));
    }
  }
};
struct UserScope {
  bool before;
  UserScope() : before(alloc_state().armed) { alloc_state().armed = false; }
  ~UserScope() { alloc_state().armed = before; }
};
inline void note_allocation(std::size_t n) {
  AllocState &a = alloc_state();
  if (a.armed)
    a.allocations++, a.bytes += n;
}
extern "C" {
void *__libc_malloc(std::size_t);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
void *malloc(std::size_t n) {
  note_allocation(n);
  return __libc_malloc(n);
}
void *calloc(std::size_t n, std::size_t m) {
  note_allocation(n * m);
  return __libc_calloc(n, m);
}
void *realloc(void *p, std::size_t n) {
  note_allocation(n);
  return __libc_realloc(p, n);
}
void *memalign(std::size_t a, std::size_t n) {
  note_allocation(n);
  return __libc_memalign(a, n);
}
void *aligned_alloc(std::size_t a, std::size_t n) {
  note_allocation(n);
  return __libc_memalign(a, n);
}
int posix_memalign(void **p, std::size_t a, std::size_t n) {
  note_allocation(n);
  *p = __libc_memalign(a, n);
  return *p ? 0 : ENOMEM;
}
}
//! The monitor itself sees every way to allocate
inline void check_alloc_monitor() {
  AllocState &a = alloc_state();
  auto seen = [&](const char *what) {
    a.armed = false;
    if (!a.allocations) {
      std::fprintf(stderr, "the allocation monitor misses %s\n", what);
      std::exit(4);
    }
    a.allocations = a.bytes = 0;
    a.armed = true;
  };
  a.armed = true;
  void *volatile q = ::operator new(3);
  seen("new");
  ::operator delete(q);
  u8 *volatile r = new u8[100];
  seen("new[]");
  delete[] r;
  q = malloc(3);
  seen("malloc");
  q = realloc(q, 300);
  seen("realloc");
  std::free(q);
  q = calloc(3, 3);
  seen("calloc");
  std::free(q);
  a.armed = false;
}
#define LIB(what) LibScope lib_scope_(what)
#define USER UserScope user_scope_
#else
#define LIB(what) ((void)0)
#define USER ((void)0)
inline void check_alloc_monitor() {}
#endif

inline void note_scopes() {
#ifdef ALLOC_MONITOR
  st().ev("library calls watched for allocations", alloc_state().scopes);
#endif
}
