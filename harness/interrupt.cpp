// C28: code which uses the library is interrupted at any instruction by a handler which uses the library too, on objects of
// its own, on constant objects shared by both, or on the other half of a double-buffered dispatcher.
//
// The processor traps after every instruction of the interrupted code, and the trap handler is the interrupt: now and then,
// it does a piece of work. Nothing allocates here, and what is observed is hashed in place and judged afterwards.
#include "types.hpp"

#include <csignal>
#include <ucontext.h>

#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/keyring.hpp>

#ifndef END
#define END LITTLE
#endif
#ifndef SGN
#define SGN TWOS_COMPLEMENT
#endif

template<std::size_t...>
struct Seq {};
template<std::size_t N, std::size_t... Is>
struct MakeSeq : MakeSeq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct MakeSeq<0, Is...> {
  typedef Seq<Is...> type;
};

//---------------------------------------------------------------- the interrupts

typedef void (*Handler)();
static volatile Handler handler;
static volatile u64 countdown, steps, interrupts, total_steps, total_interrupts;
static u64 gap_state = 88172645463325252ull, gap_span = 1;
static u64 next_gap() {
  gap_state ^= gap_state << 13;
  gap_state ^= gap_state >> 7;
  gap_state ^= gap_state << 17;
  return 1 + (gap_state >> 20) % gap_span;
}
enum { PLACES = 1 << 17 };
static u64 places[PLACES]; // instructions after which an interrupt occurred
static std::size_t n_places;
static void note_place(u64 ip) {
  for (std::size_t i = (ip * 0x9e3779b97f4a7c15ull) >> 47;; i++) {
    u64 &p = places[i % PLACES];
    if (p == ip || n_places > PLACES / 2)
      return;
    if (!p) {
      p = ip;
      n_places++;
      return;
    }
  }
}
static void on_trap(int, siginfo_t *, void *context) {
  steps = steps + 1;
  countdown = countdown - 1;
  if (countdown)
    return;
  countdown = next_gap();
  note_place(u64(static_cast<ucontext_t *>(context)->uc_mcontext.gregs[REG_RIP]));
  interrupts = interrupts + 1;
  handler();
}
static __attribute__((noinline)) void traps_on() { __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static __attribute__((noinline)) void traps_off() { __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc"); }

//! Runs some code, interrupted every 1 to `span` instructions
template<typename F>
static __attribute__((noinline)) void interrupted(u64 span, Handler h, F &&f) {
  gap_span = span;
  countdown = next_gap();
  handler = h;
  steps = interrupts = 0;
  traps_on();
  f();
  traps_off();
  total_steps = total_steps + steps;
  total_interrupts = total_interrupts + interrupts;
}

//---------------------------------------------------------------- what is called

static u64 *volatile called; // what the callbacks without a result were given

static u8 f_byte(u8 x) { return u8(x * 3 + 1); }
static u8 f_byte2(u8 x) { return u8(x ^ 0x55); }
static i64 f_wide(i16 a, i32 b) { return i64(a) * 65539 + b; }
static i64 f_wide2(i16 a, i32 b) { return i64(b) - a; }
static void f_void(u16 x) { *called = hash_add(*called, x); }
static void f_void2(u16 x) { *called = hash_add(*called, x + 7u); }
static std::array<i16, 3> f_array(const std::array<u8, 5> &a) { return {{i16(a[0] - 300), i16(a[1] * 100), i16(a[2] + a[3] * a[4] % 99)}}; }
static std::array<i16, 3> f_array2(const std::array<u8, 5> &a) { return {{i16(a[4]), i16(a[3]), i16(a[2])}}; }
static Pad f_pad(const Pad &p) { return Pad{u8(p.a + 1), p.b / 2}; }
static Pad f_pad2(const Pad &p) { return Pad{p.a, i32(-(p.b / 3))}; }
static u32 f_none() { return 0xfeedu; }
static u32 f_none2() { return 0xbeefu; }
static Tight f_tight(Tight t, bool swap) { return swap ? Tight{t.y, t.x} : t; }
static Tight f_tight2(Tight t, bool) { return Tight{1, t.x}; }

enum { FUNCTIONS = 7 };
#define EACH_FUNCTION(X) X(0, f_byte) X(1, f_wide) X(2, f_void) X(3, f_array) X(4, f_pad) X(5, f_none) X(6, f_tight)
#define EACH_OTHER(X) X(0, f_byte2) X(1, f_wide2) X(2, f_void2) X(3, f_array2) X(4, f_pad2) X(5, f_none2) X(6, f_tight2)

template<std::size_t I>
static u16 filler(u8 x) {
  return u16(I + x);
}
#define UNEVAL(f) upd::unevaluated<decltype(&f), &f>

#ifdef MANY
#define INDEX_SIZE 2
template<upd::endianess E, upd::signed_mode S, std::size_t... Is>
static upd::keyring<E, S, UNEVAL(f_byte), UNEVAL(f_wide), UNEVAL(f_void), UNEVAL(f_array), UNEVAL(f_pad), UNEVAL(f_none), UNEVAL(f_tight),
                    upd::unevaluated<u16 (*)(u8), &filler<Is>>...> make_ring(Seq<Is...>);
enum { SIZE = 270 };
#else
#define INDEX_SIZE 1
template<upd::endianess E, upd::signed_mode S, std::size_t... Is>
static upd::keyring<E, S, UNEVAL(f_byte), UNEVAL(f_wide), UNEVAL(f_void), UNEVAL(f_array), UNEVAL(f_pad), UNEVAL(f_none), UNEVAL(f_tight)> make_ring(Seq<Is...>);
enum { SIZE = FUNCTIONS };
#endif

static void take(const std::array<u8, 8> &) {}
static void take_void() {}

template<upd::endianess E, upd::signed_mode S>
struct Ring {
  typedef decltype(make_ring<E, S>(typename MakeSeq<SIZE - FUNCTIONS>::type{})) KR;
  typedef upd::keyring<E, S, UNEVAL(take_void), UNEVAL(take)> Other;
  typedef upd::dispatcher<KR, upd::action_features::WEAK_REFERENCE> Plain;
  typedef upd::single_buffered_dispatcher<Plain> Single;
  typedef upd::double_buffered_dispatcher<Plain> Double;
#define KEY(i, f) const decltype(std::declval<const KR &>().get(UNEVAL(f){})) k##i{};
  EACH_FUNCTION(KEY)
#undef KEY
  const decltype(std::declval<const Other &>().get(UNEVAL(take){})) other{};
  static const Ring &shared() { return the_ring; }
  static const Ring the_ring;
};
template<upd::endianess E, upd::signed_mode S>
const Ring<E, S> Ring<E, S>::the_ring{};

static upd::endianess constexpr reverse(upd::endianess e) { return e == upd::endianess::LITTLE ? upd::endianess::BIG : upd::endianess::LITTLE; }
static upd::signed_mode constexpr another(upd::signed_mode s) {
  return s == upd::signed_mode::TWOS_COMPLEMENT ? upd::signed_mode::SIGNED_MAGNITUDE
                                                : s == upd::signed_mode::SIGNED_MAGNITUDE ? upd::signed_mode::OFFSET_BINARY : upd::signed_mode::TWOS_COMPLEMENT;
}

//! Bytes in place
struct Mem {
  u8 b[300];
  std::size_t n = 0, at = 0;
  void push(u8 x) {
    if (n < sizeof b)
      b[n++] = x;
  }
  u8 pull() { return at < sizeof b ? b[at++] : 0; }
};

// values which every format represents
static i16 v16(Rng &g) { return i16(g.next() | 1); }
static i32 v32(Rng &g) { return i32(g.next() | 1); }
static i64 v64(Rng &g) { return i64(g.next() | 1); }

template<typename R>
static std::size_t request(const R &r, Rng &g, std::size_t fn, Mem &m, int form) {
  const std::size_t before = m.n;
  u8 *p = m.b + m.n;
#define SEND(k, ...)                                                                                                                                 \
  {                                                                                                                                                  \
    auto x = r.k(__VA_ARGS__);                                                                                                                       \
    switch (form % 3) {                                                                                                                              \
    case 0:                                                                                                                                          \
      x.write_to([&](u8 b) { m.push(b); });                                                                                                          \
      break;                                                                                                                                         \
    case 1:                                                                                                                                          \
      x.write_to(p);                                                                                                                                 \
      m.n += r.k.payload_length;                                                                                                                     \
      break;                                                                                                                                         \
    default:                                                                                                                                         \
      x >> p;                                                                                                                                        \
      m.n += r.k.payload_length;                                                                                                                     \
    }                                                                                                                                                \
    break;                                                                                                                                           \
  }
  switch (fn) {
  case 0:
    SEND(k0, u8(g.next()))
  case 1:
    SEND(k1, v16(g), v32(g))
  case 2:
    SEND(k2, u16(g.next()))
  case 3: {
    std::array<u8, 5> a;
    for (auto &e : a)
      e = u8(g.next());
    SEND(k3, a)
  }
  case 4:
    SEND(k4, (Pad{u8(g.next()), v32(g)}))
  case 5:
    SEND(k5)
  default:
    SEND(k6, (Tight{v16(g), v16(g)}), g.chance(1, 2))
  }
#undef SEND
  return m.n - before;
}

static u64 flat(u8 x) { return x; }
static u64 flat(u32 x) { return x; }
static u64 flat(i64 x) { return u64(x); }
static u64 flat(const std::array<i16, 3> &a) { return u64(u16(a[0])) | u64(u16(a[1])) << 16 | u64(u16(a[2])) << 32; }
static u64 flat(const Pad &p) { return p.a | u64(u32(p.b)) << 8; }
static u64 flat(const Tight &t) { return u16(t.x) | u64(u16(t.y)) << 16; }

#define HOOK(k, T)                                                                                                                                   \
  static void hook_##k(T x) { *called = hash_add(*called, flat(x)); }
typedef std::array<i16, 3> Three;
HOOK(k0, u8)
HOOK(k1, i64)
HOOK(k3, Three)
HOOK(k4, Pad)
HOOK(k5, u32)
HOOK(k6, Tight)
#undef HOOK

//! Bytes of a response of a function
static std::size_t response_bytes(std::size_t fn) {
  static const std::size_t n[] = {1, 8, 0, 6, 5, 4, 4};
  return n[fn];
}

template<typename R>
static u64 decode(const R &r, std::size_t fn, Mem &m, int form) {
  u64 h = 5;
  u64 *const outer = called;
  called = &h;
  auto src = [&]() { return m.pull(); };
#define DECODE(k)                                                                                                                                    \
  if (form % 3 == 0)                                                                                                                                 \
    h = hash_add(h, flat(r.k.read_from(src)));                                                                                                       \
  else if (form % 3 == 1) {                                                                                                                          \
    h = hash_add(h, flat(r.k.read_from(static_cast<const u8 *>(m.b + m.at))));                                                                       \
    m.at += response_bytes(fn);                                                                                                                      \
  } else                                                                                                                                             \
    r.k.with_hook(UNEVAL(hook_##k){})(src, [](u8) {});                                                                      \
  break;
  switch (fn) {
  case 0:
    DECODE(k0)
  case 1:
    DECODE(k1)
  case 3:
    DECODE(k3)
  case 4:
    DECODE(k4)
  case 5:
    DECODE(k5)
  case 6:
    DECODE(k6)
  default:
    break;
  }
#undef DECODE
  called = outer;
  return h;
}

//---------------------------------------------------------------- pieces of work

enum { TUPLE, KEYS, PLAIN, SINGLE, DOUBLE, REPLACE, OPS };
static const char *const op_name[] = {"tuples", "keys and hooks", "a plain dispatcher", "a single-buffered dispatcher", "a double-buffered dispatcher", "replaced callbacks"};
static const char *const op_event[] = {"interrupted uses of tuples", "interrupted uses of keys and hooks", "interrupted uses of plain dispatchers",
                                       "interrupted uses of single-buffered dispatchers", "interrupted uses of double-buffered dispatchers", "interrupted replacements"};

//! What a job does depends on nothing but its seed and on the order of its own pieces of work
template<upd::endianess E, upd::signed_mode S>
struct Job {
  typedef Ring<E, S> R;
  typedef upd::tuple<E, S, u8, i16, bool, i64, std::array<u32, 3>, Pad> T;
  typedef upd::tuple<reverse(E), another(S), u8, i16, bool, i64, std::array<u32, 3>, Pad> T2;

  Rng g;
  u64 h = 1;
  typename R::Plain plain;
  typename R::Single single;
  typename R::Double twice;
  T last;

  explicit Job(u64 seed) : g(seed) {}

  void see(const u8 *p, std::size_t n) { h = hash_bytes(h, p, n); }

  //! Does one thing, and tells what is was
  int step(u64 &seen) {
    h = 1;
    u64 *const outer = called;
    called = &h;
    const int op = int(g.below(OPS));
    switch (op) {
    case TUPLE:
      tuples();
      break;
    case KEYS: {
      const std::size_t fn = g.below(FUNCTIONS);
      Mem m;
      const int form = int(g.below(3));
      h = hash_add(h, request(R::shared(), g, fn, m, form));
      see(m.b, m.n);
      Mem r;
      for (std::size_t i = 0; i < response_bytes(fn); i++)
        r.push(u8(g.next() | 1));
      h = hash_add(h, decode(R::shared(), fn, r, int(g.below(3))));
      h = hash_add(h, r.at);
      break;
    }
    case PLAIN: {
      Mem m, out;
      const std::size_t fn = g.below(FUNCTIONS);
      request(R::shared(), g, fn, m, int(g.below(3)));
      if (g.chance(1, 2)) {
        h = hash_add(h, plain([&]() { return m.pull(); }, [&](u8 x) { out.push(x); }));
        h = hash_add(h, m.at);
        see(out.b, out.n);
        h = hash_add(h, decode(R::shared(), fn, out, int(g.below(3))));
      } else {
        u8 b[40] = {};
        h = hash_add(h, plain(static_cast<const u8 *>(m.b), &b[0]));
        see(b, sizeof b);
      }
      break;
    }
    case SINGLE:
      buffered(single);
      break;
    case DOUBLE:
      buffered(twice);
      break;
    default:
#define OTHER(i, f)                                                                                                                                  \
  case i:                                                                                                                                            \
    plain.template replace<i>(UNEVAL(f){});                                                                                                          \
    twice.template replace<i>(UNEVAL(f){});                                                                                                          \
    break;
      if (g.chance(1, 2))
        switch (g.below(FUNCTIONS)) { EACH_OTHER(OTHER) }
      else
        switch (g.below(FUNCTIONS)) { EACH_FUNCTION(OTHER) }
#undef OTHER
    }
    called = outer;
    seen = h;
    return op;
  }

  void tuples() {
    const i16 a = v16(g);
    const i64 b = v64(g);
    const u8 x = u8(g.next());
    std::array<u32, 3> c;
    for (auto &e : c)
      e = u32(g.next());
    T t(x, a, g.chance(1, 2), b, c, Pad{u8(g.next()), v32(g)});
    see(t.begin(), T::size);
    t.template set<1>(v16(g));
    t.template set<3>(v64(g));
    t.template set<5>(Pad{x, v32(g)});
    T2 u;
    u = T(t);
    see(u.begin(), T2::size);
    h = hash_add(h, u64(u.template get<3>()));
    h = hash_add(h, u.template get<4>()[1]);
    auto v = t.template view<1, 3>();
    v.template set<0>(a);
    v.template set<2>(b);
    h = hash_add(h, u64(v.template get<0>()) + v.template get<1>());
    h = hash_add(h, t.invoke([](u8 p, i16 q, bool r, i64 s, const std::array<u32, 3> &y, const Pad &z) {
      return hash_add(hash_add(u64(p) + u64(q) + r, u64(s)), hash_add(y[0] + y[1] * 3 + y[2] * 5, flat(z)));
    }));
    u8 raw[20];
    auto w = upd::make_view<u16, i32, std::array<i8, 2>, Tight>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, &raw[3]);
    w.template set<0>(u16(x * 77));
    w.template set<1>(v32(g));
    w.template set<2>(std::array<i8, 2>{{i8(x | 1), 5}});
    w.template set<3>(Tight{a, 3});
    see(&raw[3], 12);
    h = hash_add(h, u64(w.template get<1>()));
    // bytes which a plain pointer does not go through
    u8 back[20] = {};
    auto z = upd::make_view<i16, u32, std::array<u16, 2>, Pad>(upd::endianess_h<reverse(E)>{}, upd::signed_mode_h<S>{}, std::reverse_iterator<u8 *>(&back[19]));
    z.template set<0>(a);
    z.template set<1>(u32(x) * 0x01020304u);
    z.template set<2>(std::array<u16, 2>{{u16(x * 5), 0x1234}});
    z.template set<3>(Pad{x, v32(g)});
    see(back, sizeof back);
    h = hash_add(h, u64(z.template get<0>()) + z.template get<1>());
    h = hash_add(h, z.template get<2>()[1] + flat(z.template get<3>()));
    h = hash_add(h, z.invoke([](i16 p, u32 q, const std::array<u16, 2> &r, const Pad &s) { return hash_add(hash_add(u64(p) + q, u64(r[0]) * 3 + r[1]), flat(s)); }));
    std::swap(t, last);
    see(t.begin(), T::size);
  }

  template<typename D>
  void buffered(D &d) {
    Mem m, out;
    if (g.chance(1, 4)) // an unknown index
      for (int i = 0; i < INDEX_SIZE; i++)
        m.push(0xff);
    const std::size_t fn = g.below(FUNCTIONS);
    request(R::shared(), g, fn, m, int(g.below(3)));
    switch (g.below(4)) {
    case 0:
      while (m.at < m.n)
        h = hash_add(h, u64(d.put(m.pull())));
      break;
    case 1:
      while (m.at < m.n)
        h = hash_add(h, u64(d.read_from([&]() { return m.pull(); })));
      break;
    case 2:
      while (m.at < m.n) {
        if (g.chance(1, 2))
          h = hash_add(h, u64(d.put(m.pull())));
        else
          h = hash_add(h, u64(d << [&]() { return m.pull(); }));
      }
      break;
    default:
      while (m.at < m.n)
        h = hash_add(h, u64(d([&]() { return m.pull(); }, [&](u8 x) { out.push(x); })));
    }
    h = hash_add(h, d.is_loaded());
    switch (g.below(4)) {
    case 0:
      for (int i = 0; i < 12 && d.is_loaded(); i++)
        out.push(d.get());
      break;
    case 1:
      d.write_to([&](u8 x) { out.push(x); });
      break;
    case 2: {
      u8 b[40] = {};
      d >> &b[0];
      see(b, sizeof b);
      break;
    }
    default:
      h = hash_add(h, d.reply([&](u8 x) { out.push(x); }, R::shared().other));
      d.write_to([&](u8 x) { out.push(x); });
    }
    h = hash_add(h, d.is_loaded());
    see(out.b, out.n);
    if (out.n >= response_bytes(fn))
      h = hash_add(h, decode(R::shared(), fn, out, int(g.below(3))));
  }
};

//---------------------------------------------------------------- jobs which interrupt each other

struct Record {
  u64 h;
  int op;
};
enum { MAX = 400000 };
static Record record[MAX];
static std::size_t recorded;

template<typename B>
struct Interrupter {
  static B *job;
  static void run() {
    if (recorded == MAX)
      return;
    Record &r = record[recorded++];
    r.op = job->step(r.h);
  }
};
template<typename B>
B *Interrupter<B>::job;

template<typename A, typename B>
static void judge_jobs(const char *name, u64 seed, u64 work) {
  A a(seed), a2(seed);
  B b(seed + 77), b2(seed + 77);
  Interrupter<B>::job = &b;
  Rng g(seed);
  for (u64 i = 0; i < work; i++) {
    static const u64 spans[] = {1, 3, 7, 40, 120};
    const u64 span = spans[g.below(5)];
    recorded = 0;
    u64 got = 0, want = 0;
    int op = 0;
    interrupted(span, &Interrupter<B>::run, [&] { op = a.step(got); });
    const u64 times = interrupts;
    const int op2 = a2.step(want);
    st().current = strf("%s: piece %llu of seed %llu", name, (unsigned long long)i, (unsigned long long)seed);
    EXPECT(op == op2 && got == want, "interrupted", "%s: %s interrupted %llu times between instructions, 1 to %llu apart, by the use of other objects observe %llx instead of %llx",
           name, op_name[op2], (unsigned long long)times, (unsigned long long)span, (unsigned long long)got, (unsigned long long)want);
    for (std::size_t j = 0; j < recorded; j++) {
      const int o = b2.step(want);
      EXPECT(record[j].op == o && record[j].h == want, "interrupt", "%s: an interrupt of %s which uses %s on objects of its own observes %llx instead of %llx", name,
             op_name[op2], op_name[o], (unsigned long long)record[j].h, (unsigned long long)want);
      st().state(hash_add(hash_add(hash_str(name), u64(op)), u64(o)));
    }
    st().evaluations += 1 + recorded;
    st().ev(op_event[op]);
    st().ev("pieces of work done by interrupts", recorded);
    if (st().wants_sample() && g.chance(1, 40))
      st().sample(strf("%s: %s interrupted %llu times, hash %llx as when alone", name, op_name[op], (unsigned long long)times, (unsigned long long)got));
  }
}

//---------------------------------------------------------------- the two halves of a dispatcher

// An interrupt receives the next request, except for the byte which completes it, while the response is read, or reads the
// response while the next request is received
template<typename R>
struct Halves {
  typedef typename R::Double D;
  static D *d;
  static Mem in;           // given to the dispatcher
  static std::size_t last; // but not from here
  static Mem statuses, out;
  static unsigned way;

  static void receive() {
    if (in.at < last)
      statuses.push(u8(d->put(in.pull())));
  }
  static void send() {
    if (!d->is_loaded())
      return;
    if (way % 5 == 4)
      d->write_to([](u8 x) { out.push(x); });
    else
      out.push(d->get());
  }

  //! What put is to return for the bytes of a stream
  static void expected(const Mem &m, Mem &want) {
    std::size_t i = 0;
    while (i < m.n) {
      for (int k = 1; k < INDEX_SIZE && i < m.n; k++, i++)
        want.push(u8(upd::packet_status::LOADING_PACKET));
      if (i == m.n)
        return;
      if (m.b[i] == 0xff && (INDEX_SIZE == 1 || m.b[i - 1] == 0xff)) {
        want.push(u8(upd::packet_status::DROPPED_PACKET));
        i++;
        continue;
      }
      while (++i < m.n)
        want.push(u8(upd::packet_status::LOADING_PACKET));
      want.push(u8(upd::packet_status::RESOLVED_PACKET));
    }
  }
  static void answer(const Mem &req, Mem &resp) { // by another dispatcher
    static typename R::Plain plain;
    plain(static_cast<const u8 *>(req.b), [&](u8 x) { resp.push(x); });
  }

  static void judge(const char *name, u64 seed, u64 work) {
    Rng g(seed);
    D disp;
    d = &disp;
    u64 log = 1, log2 = 1;
    for (u64 i = 0; i < work; i++) {
      static const std::size_t loud[] = {0, 1, 3, 4, 5, 6}, fed[] = {0, 1, 2, 3, 4, 6};
      Mem first, want, next, answer2;
      request(R::shared(), g, loud[g.below(6)], first, 0);
      called = &log2;
      answer(first, want);
      in = Mem();
      if (g.chance(1, 3))
        for (std::size_t k = 1 + g.below(3); k--;)
          for (int j = 0; j < INDEX_SIZE; j++)
            in.push(0xff);
      const std::size_t junk = in.n, fn = fed[g.below(6)];
      request(R::shared(), g, fn, next, 1);
      for (std::size_t k = 0; k < next.n; k++)
        in.push(next.b[k]);
      last = in.n - 1;
      Mem all = in;
      Mem st_want;
      expected(all, st_want);
      statuses = Mem();
      out = Mem();
      called = &log;
      for (std::size_t k = 0; k < first.n; k++)
        disp.put(first.b[k]);
      static const u64 spans[] = {1, 4, 12, 30};
      const u64 span = spans[g.below(4)];
      way = unsigned(g.next());
      st().current = strf("%s: exchange %llu of seed %llu", name, (unsigned long long)i, (unsigned long long)seed);
      const bool reading = g.chance(1, 2);
      Mem tail;
      if (reading)
        interrupted(span, &receive, [&] {
          if (way % 7 == 0)
            out.push(disp.get());
          switch (way % 3) {
          case 0:
            while (disp.is_loaded())
              out.push(disp.get());
            break;
          case 1:
            disp.write_to([&](u8 x) { out.push(x); });
            break;
          default: {
            const std::size_t n = want.n - (way % 7 == 0);
            disp >> &tail.b[0];
            for (std::size_t k = 0; k < n; k++)
              out.push(tail.b[k]);
          }
          }
        });
      else
        interrupted(span, &send, [&] {
          while (in.at < last) {
            // a dropped index at once
            if (way % 3 == 0 && in.at < junk) {
              const u8 s = u8(disp.read_from([&]() { return in.pull(); }));
              for (int j = 1; j < INDEX_SIZE; j++)
                statuses.push(u8(upd::packet_status::LOADING_PACKET));
              statuses.push(s);
            } else
              statuses.push(u8(disp.put(in.pull())));
          }
        });
      const u64 times = interrupts;
      const std::size_t sent = out.n;
      while (in.at < last)
        statuses.push(u8(disp.put(in.pull())));
      while (disp.is_loaded() && out.n < 200)
        out.push(disp.get());
      called = &log2;
      answer(next, answer2);
      called = &log;
      statuses.push(u8(disp.put(in.pull())));
      Mem out2;
      while (disp.is_loaded() && out2.n < 200)
        out2.push(disp.get());
      called = nullptr;
      const std::string what = strf("%s: a response %s while %s, interrupts being 1 to %llu instructions apart", name, reading ? "is read" : "is read by interrupts",
                                    reading ? "interrupts receive the next request" : "the next request is received", (unsigned long long)span);
      EXPECT(out.n == want.n && !std::memcmp(out.b, want.b, want.n), "halves", "%s: %s is read instead of %s", what.c_str(), hex(out.b, out.n).c_str(), hex(want.b, want.n).c_str());
      EXPECT(statuses.n == st_want.n && !std::memcmp(statuses.b, st_want.b, st_want.n), "halves", "%s: the statuses are %s instead of %s", what.c_str(),
             hex(statuses.b, statuses.n).c_str(), hex(st_want.b, st_want.n).c_str());
      EXPECT(out2.n == answer2.n && !std::memcmp(out2.b, answer2.b, answer2.n) && log == log2, "halves", "%s: the answer to the request is %s instead of %s", what.c_str(),
             hex(out2.b, out2.n).c_str(), hex(answer2.b, answer2.n).c_str());
      st().evaluations += 3;
      st().ev(reading ? "responses read while interrupts received" : "requests received while interrupts read");
      st().ev("interrupts of the other half", times);
      st().state(hash_add(hash_add(hash_bytes(hash_str(name), first.b, 1), fn), hash_add(reading, sent)));
    }
  }
};
template<typename R>
typename R::Double *Halves<R>::d;
template<typename R>
Mem Halves<R>::in;
template<typename R>
std::size_t Halves<R>::last;
template<typename R>
Mem Halves<R>::statuses;
template<typename R>
Mem Halves<R>::out;
template<typename R>
unsigned Halves<R>::way;

int main(int argc, char **argv) {
  init(argc, argv);
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, nullptr);
  // are there traps at all?
  volatile int x = 0;
  interrupted(1, [] {}, [&] {
    for (int i = 0; i < 100; i++)
      x = x + i;
  });
  if (interrupts < 100) {
    std::fprintf(stderr, "single-stepping does not work here\n");
    return 4;
  }

  const u64 k = (opt().thorough ? 20 : 1) * opt().scale;
  const upd::endianess E = upd::endianess::END;
  const upd::signed_mode S = upd::signed_mode::SGN;
  for (u64 i = 0; i < k; i++) {
    const u64 seed = opt().seed * 1000 + i * 10;
    judge_jobs<Job<E, S>, Job<E, S>>("the same format", seed, 60);
    judge_jobs<Job<E, S>, Job<reverse(E), another(S)>>("another format", seed + 1, 30);
    judge_jobs<Job<reverse(E), another(S)>, Job<E, S>>("another format", seed + 2, 30);
    Halves<Ring<E, S>>::judge("two halves", seed + 3, 300);
  }
  for (u64 ip : places)
    if (ip)
      st().state(ip - reinterpret_cast<u64>(&on_trap));
  st().ev("instructions stepped", total_steps);
  st().ev("interrupts", total_interrupts);
  st().ev("distinct instructions interrupted", n_places);
  return finish();
}
