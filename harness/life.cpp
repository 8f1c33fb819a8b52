// C15: the callbacks given to actions and dispatchers are tracked one by one, from their construction to their destruction.
//
// Build with -DKIND=0 (plain dispatcher), 1 (single-buffered), 2 (double-buffered) or 3 (user-defined buffers).
#include "common.hpp"

#include <functional>
#include <memory>

#include <upd/buffered_dispatcher.hpp>
#include <upd/keyring.hpp>

#ifndef KIND
#define KIND 0
#endif
#ifndef END
#define END LITTLE
#endif
#ifndef SGN
#define SGN TWOS_COMPLEMENT
#endif

static Rng *G;

//---------------------------------------------------------------- the census

struct Thrown {};
struct Core;
struct Census {
  std::map<const Core *, i64> live;
  u64 copies, moves, made, destroyed;
  int copy_fuse; // throw when it reaches 0
  bool invoking;
};
static Census &cs() {
  static Census *c = new Census{{}, 0, 0, 0, 0, -1, false};
  return *c;
}

struct Core {
  const Core *self;
  i64 tag;
  u64 *state; // on the heap, so that a use after the destruction is a memory error
  bool moved_from;

  explicit Core(i64 tag, u64 s) : self(this), tag(tag), state(new u64(s)), moved_from(false) { enter(); }
  Core(const Core &o) : self(this), tag(o.tag), state(nullptr), moved_from(o.moved_from) {
    o.check("copied");
    EXPECT(!cs().invoking, "copied", "an invocation copied functor %d", int(tag));
    if (cs().copy_fuse >= 0 && cs().copy_fuse-- == 0)
      throw Thrown();
    state = new u64(*o.state);
    cs().copies++;
    enter();
  }
  Core(Core &&o) noexcept : self(this), tag(o.tag), state(o.state), moved_from(o.moved_from) {
    o.check("moved");
    EXPECT(!cs().invoking, "copied", "an invocation moved functor %d", int(tag));
    o.state = new u64(0xdeadbeef);
    o.moved_from = true;
    cs().moves++;
    enter();
  }
  Core &operator=(const Core &) = delete;
  ~Core() {
    check("destroyed");
    cs().live.erase(this);
    cs().destroyed++;
    delete state;
    state = nullptr;
    self = nullptr;
  }
  void enter() {
    cs().made++;
    cs().live[this] = tag;
  }
  void check(const char *what) const {
    if (self != this || !cs().live.count(this))
      violation("lifetime", strf("a functor that does not exist is %s", what));
  }
};

static std::function<void()> *during; // something to do inside of an invocation
static int invoked;
static i64 invoked_tag;
static bool fuse; // throw in the invocation

static u64 step(u64 s, i64 tag, u64 x) { return (s * 1103515245u + x * 12345u + u64(tag)) & 0x7fffffff; }
static u64 use(const Core &c, u64 x) {
  c.check("invoked");
  if (c.moved_from)
    violation("lifetime", strf("functor %d is invoked after it was moved from", int(c.tag)));
  invoked++;
  invoked_tag = c.tag;
  *c.state = step(*c.state, c.tag, x);
  if (during) {
    const bool was = cs().invoking;
    cs().invoking = false;
    std::function<void()> *d = during;
    during = nullptr;
    (*d)();
    cs().invoking = was;
    c.check("used by its own invocation");
  }
  if (fuse)
    throw Thrown();
  return *c.state;
}

//---------------------------------------------------------------- functors

static u64 mix() { return 17; }
template<typename T, typename... Ts>
static u64 mix(T x, Ts... xs) {
  return u64(i64(x)) * 31 + mix(xs...) * 7;
}
template<typename R>
struct As {
  static R of(u64 s) { return R(s >> 3); }
};
template<>
struct As<void> {
  static void of(u64) {}
};
template<>
struct As<std::array<u8, 4>> {
  static std::array<u8, 4> of(u64 s) { return std::array<u8, 4>{{u8(s), u8(s >> 8), u8(s >> 16), u8(s >> 24)}}; }
};

template<typename Sig>
struct Plain;
template<typename R, typename... Args>
struct Plain<R(Args...)> {
  Core c;
  Plain(i64 tag, u64 s) : c(tag, s) {}
  R operator()(Args... a) { return As<R>::of(use(c, mix(a...))); }
};
template<typename Sig>
struct Const;
template<typename R, typename... Args>
struct Const<R(Args...)> {
  Core c;
  Const(i64 tag, u64 s) : c(tag, s) {}
  R operator()(Args... a) const { return As<R>::of(use(c, mix(a...))); }
};
template<typename Sig>
struct MoveOnly;
template<typename R, typename... Args>
struct MoveOnly<R(Args...)> final {
  Core c;
  std::unique_ptr<int> p;
  MoveOnly(i64 tag, u64 s) : c(tag, s), p(new int(5)) {}
  R operator()(Args... a) {
    *p += 1;
    return As<R>::of(use(c, mix(a...)));
  }
};
template<typename Sig>
struct Big;
template<typename R, typename... Args>
struct Big<R(Args...)> {
  u8 pad[700];
  Core c;
  u8 after[300];
  Big(i64 tag, u64 s) : c(tag, s) {
    std::memset(pad, int(tag), sizeof pad);
    std::memset(after, int(tag), sizeof after);
  }
  R operator()(Args... a) {
    for (u8 x : pad)
      EXPECT(x == u8(c.tag), "state", "the functor's contents changed");
    for (u8 x : after)
      EXPECT(x == u8(c.tag), "state", "the functor's contents changed");
    return As<R>::of(use(c, mix(a...)));
  }
};
template<typename Sig>
struct LRef;
template<typename R, typename... Args>
struct LRef<R(Args...)> {
  Core c;
  LRef(i64 tag, u64 s) : c(tag, s) {}
  R operator()(Args... a) & { return As<R>::of(use(c, mix(a...))); }
};
#if __cplusplus >= 201703L
template<typename Sig>
struct Aligned;
template<typename R, typename... Args>
struct alignas(64) Aligned<R(Args...)> {
  Core c;
  Aligned(i64 tag, u64 s) : c(tag, s) {}
  R operator()(Args... a) {
    EXPECT(reinterpret_cast<std::uintptr_t>(this) % 64 == 0, "state", "an over-aligned functor is misplaced");
    return As<R>::of(use(c, mix(a...)));
  }
};
#else
template<typename Sig>
struct Aligned : Plain<Sig> {
  using Plain<Sig>::Plain;
};
#endif

//---------------------------------------------------------------- the keyring

static int plain_calls[8];
static u8 f0(u8 x) { return plain_calls[0]++, u8(x + 1); }
static u8 g0(u8 x) { return plain_calls[1]++, u8(x + 2); }
static i32 f1(i16 x, u8 y) { return plain_calls[0]++, x * 256 + y; }
static i32 g1(i16 x, u8 y) { return plain_calls[1]++, x * 256 - y; }
static void f2(u16) { plain_calls[0]++; }
static void g2(u16) { plain_calls[1]++; }
static std::array<u8, 4> f3() { return plain_calls[0]++, std::array<u8, 4>{{1, 2, 3, 4}}; }
static std::array<u8, 4> g3() { return plain_calls[1]++, std::array<u8, 4>{{5, 6, 7, 8}}; }
static void f4() { plain_calls[0]++; }
static void g4() { plain_calls[1]++; }
#define H(F) upd::unevaluated<decltype(&F), &F>
typedef upd::keyring<upd::endianess::END, upd::signed_mode::SGN, H(f0), H(f1), H(f2), H(f3), H(f4)> KR;
static const Fmt FMT = {upd::endianess::END == upd::endianess::BIG, Mode(int(upd::signed_mode::SGN))};
enum { N = 5 };
static const auto eh = upd::endianess_h<upd::endianess::END>{};
static const auto sh = upd::signed_mode_h<upd::signed_mode::SGN>{};

static Mode mode_of(upd::signed_mode m) {
  return m == upd::signed_mode::SIGNED_MAGNITUDE ? SM : m == upd::signed_mode::ONES_COMPLEMENT ? OC : m == upd::signed_mode::TWOS_COMPLEMENT ? TC : OB;
}
static Fmt fmt() { return Fmt{FMT.big, mode_of(upd::signed_mode::SGN)}; }

typedef upd::dispatcher<KR, upd::action_features::ANY> DA;
struct Custom : upd::buffered_dispatcher<Custom, DA> {
  u8 in[8], out[8];
  u8 *ibuf_begin() { return in; }
  u8 *obuf_begin() { return out; }
};
#if KIND == 0
typedef DA D;
#elif KIND == 1
typedef upd::single_buffered_dispatcher<DA> D;
#elif KIND == 2
typedef upd::double_buffered_dispatcher<DA> D;
#else
typedef Custom D;
#endif

template<int I>
struct Sig;
template<>
struct Sig<0> {
  typedef u8 type(u8);
};
template<>
struct Sig<1> {
  typedef i32 type(i16, u8);
};
template<>
struct Sig<2> {
  typedef void type(u16);
};
template<>
struct Sig<3> {
  typedef std::array<u8, 4> type();
};
template<>
struct Sig<4> {
  typedef void type();
};

//---------------------------------------------------------------- specification

struct Held { // what a slot holds
  enum What { EMPTY, FUNCTION, FUNCTOR } what;
  int which; // FUNCTION: original (0) or replacement (1)
  i64 tag;
  u64 state;
};
static Held empty_held() { return Held{Held::EMPTY, 0, 0, 0}; }

struct Args {
  u64 m; // as given to mix
  Bytes bytes;
  i64 v[2];
};
static Args gen_args(int sig) {
  Args a{0, {}, {0, 0}};
  auto take = [&](Scalar s, int i) {
    const i128 v = gen_value(*G, s, fmt());
    a.v[i] = i64(v);
    ref_encode(a.bytes, v, s, fmt());
  };
  switch (sig) {
  case 0:
    take(Scalar{1, false, false}, 0);
    a.m = mix(a.v[0]);
    break;
  case 1:
    take(Scalar{2, true, false}, 0);
    take(Scalar{1, false, false}, 1);
    a.m = mix(a.v[0], a.v[1]);
    break;
  case 2:
    take(Scalar{2, false, false}, 0);
    a.m = mix(a.v[0]);
    break;
  default:
    a.m = mix();
  }
  return a;
}
//! The response of a held callback, whose state advances
static Bytes expected(int sig, Held &h, const Args &a) {
  Bytes b;
  if (h.what == Held::EMPTY)
    return b;
  u64 s = 0;
  if (h.what == Held::FUNCTOR)
    s = h.state = step(h.state, h.tag, a.m);
  switch (sig) {
  case 0:
    b.push_back(u8(h.what == Held::FUNCTOR ? i64(s >> 3) : a.v[0] + 1 + h.which));
    break;
  case 1: {
    const i64 v = h.what == Held::FUNCTOR ? i64(s >> 3) : h.which ? a.v[0] * 256 - a.v[1] : a.v[0] * 256 + a.v[1];
    ref_encode(b, v, Scalar{4, true, false}, fmt());
    break;
  }
  case 3:
    for (int i = 0; i < 4; i++)
      b.push_back(h.what == Held::FUNCTOR ? u8(s >> (8 * i)) : u8(1 + i + 4 * h.which));
    break;
  default:;
  }
  return b;
}

struct ActionSlot {
  std::unique_ptr<upd::action> a;
  int sig;
  Held held;
};
struct DispSlot {
  std::unique_ptr<D> d;
  Held held[N];
  Bytes pending; // buffered: the response not read yet
  int partial;   // buffered: index of a request under way
  Bytes rest;    // and what is still to come
  Args args;
};
enum { ACTIONS = 6, DISPS = 3 };
static ActionSlot actions[ACTIONS];
static DispSlot disps[DISPS];
static std::vector<upd::action> *heap_actions; // reallocated now and then
static std::vector<std::pair<int, Held>> heap_held;
static i64 next_tag = 1;

static void census(const char *op) {
  std::map<i64, int> want, got;
  auto add = [&](const Held &h) {
    if (h.what == Held::FUNCTOR)
      want[h.tag]++;
  };
  for (auto &s : actions)
    if (s.a)
      add(s.held);
  for (auto &s : disps)
    if (s.d)
      for (auto &h : s.held)
        add(h);
  for (auto &h : heap_held)
    add(h.second);
  for (auto &l : cs().live) {
    if (l.first->moved_from)
      violation("census", strf("after %s, a moved-from copy of functor %d is still alive", op, int(l.second)));
    got[l.second]++;
  }
  if (got != want) {
    std::string t;
    for (auto &w : want)
      if (got[w.first] != w.second)
        t += strf(" functor %d exists %d times instead of %d;", int(w.first), got[w.first], w.second);
    for (auto &g : got)
      if (!want.count(g.first) && g.second)
        t += strf(" functor %d exists %d times instead of 0;", int(g.first), g.second);
    violation("census", strf("after %s:%s", op, t.c_str()));
  }
  for (auto &l : cs().live) { // states
    const u64 s = *l.first->state;
    bool ok = false;
    auto same = [&](const Held &h) { ok = ok || (h.what == Held::FUNCTOR && h.tag == l.second && h.state == s); };
    for (auto &x : actions)
      same(x.held);
    for (auto &x : disps)
      for (auto &h : x.held)
        same(h);
    for (auto &h : heap_held)
      same(h.second);
    EXPECT(ok, "state", "after %s, the state of functor %d is not the expected one", op, int(l.second));
  }
}

//---------------------------------------------------------------- giving functors

//! Gives a functor of the type F to `give`, as a temporary, as a moved or copied object or as a constant; the original
//! is then altered and destroyed
template<typename F, typename Give>
static void give_copyable(Held &h, const Give &give) {
  const i64 tag = next_tag++;
  const u64 s = G->below(1000);
  const Held done{Held::FUNCTOR, 0, tag, s};
  const u64 copies = cs().copies;
  switch (G->below(4)) {
  case 0:
    st().ev("given as a temporary");
    give(F(tag, s));
    EXPECT(cs().copies == copies, "copied", "a temporary functor is copied");
    break;
  case 1: {
    st().ev("given by move");
    F f(tag, s);
    give(std::move(f));
    EXPECT(cs().copies == copies, "copied", "a moved functor is copied");
    break;
  }
  case 2: {
    st().ev("given by copy");
    F f(tag, s);
    give(f);
    EXPECT(cs().copies > copies, "copied", "a functor given as an object is not copied");
    EXPECT(!f.c.moved_from && *f.c.state == s, "moved", "the original functor is altered");
    *f.c.state = 4242; // no effect on the copy
    break;
  }
  default: {
    // as a constant, when it can be invoked as such
    st().ev("given by copy, which throws or not");
    F f(tag, s);
    const Held before = h;
    if (G->chance(1, 2)) {
      cs().copy_fuse = 0;
      bool thrown = false;
      try {
        give(f);
      } catch (const Thrown &) {
        thrown = true;
      }
      cs().copy_fuse = -1;
      EXPECT(thrown, "exception", "the exception of a copy is lost");
      h = before;
      return;
    }
    give(f);
    *f.c.state = 777;
  }
  }
  h = done;
}
template<typename F, typename Give>
static void give_const(Held &h, const Give &give) {
  const i64 tag = next_tag++;
  const u64 s = G->below(1000);
  st().ev("given as a constant");
  const F f(tag, s);
  give(f);
  *f.c.state = 3;
  h = Held{Held::FUNCTOR, 0, tag, s};
}
template<typename F, typename Give>
static void give_move(Held &h, const Give &give) {
  const i64 tag = next_tag++;
  const u64 s = G->below(1000);
  st().ev("given by move only");
  if (G->chance(1, 2)) {
    give(F(tag, s));
  } else {
    F f(tag, s);
    give(std::move(f));
  }
  h = Held{Held::FUNCTOR, 0, tag, s};
}
template<typename F, typename Give>
static void give_lvalue(Held &h, const Give &give) {
  const i64 tag = next_tag++;
  const u64 s = G->below(1000);
  st().ev("given as an lvalue only");
  std::unique_ptr<F> f(new F(tag, s));
  give(*f);
  f.reset();
  h = Held{Held::FUNCTOR, 0, tag, s};
}
template<typename S, typename Give>
static void give_std_function(Held &h, const Give &give) {
  const i64 tag = next_tag++;
  const u64 s = G->below(1000);
  st().ev("given in a std::function");
  std::function<S> f = Plain<S>(tag, s);
  if (G->chance(1, 2)) {
    give(f);
    f = nullptr;
  } else {
    give(std::move(f));
  }
  h = Held{Held::FUNCTOR, 0, tag, s};
}
template<typename S, typename R>
struct Lambda;
template<typename R, typename... A, typename RR>
struct Lambda<R(A...), RR> {
  template<typename Give>
  static void run(Held &h, const Give &give) {
    const i64 tag = next_tag++;
    const u64 s = G->below(1000);
    st().ev("given as a lambda");
    {
      auto shared = std::make_shared<Core>(tag, s);
      auto f = [shared](A... a) mutable -> R { return As<R>::of(use(*shared, mix(a...))); };
      if (G->chance(1, 2))
        give(f);
      else
        give(std::move(f));
    }
    h = Held{Held::FUNCTOR, 0, tag, s};
  }
};

//! Gives a random functor for the signature
template<int I, typename Give>
static void give_any(Held &h, const Give &give) {
  typedef typename Sig<I>::type S;
  switch (G->below(7)) {
  case 0:
    return give_copyable<Plain<S>>(h, give);
  case 1:
    return give_move<MoveOnly<S>>(h, give);
  case 2:
    return give_copyable<Const<S>>(h, give);
  case 3:
    return I % 2 ? give_const<Const<S>>(h, give) : give_copyable<Big<S>>(h, give);
  case 4:
    return I % 2 ? give_lvalue<LRef<S>>(h, give) : give_copyable<Aligned<S>>(h, give);
  case 5:
    return give_std_function<S>(h, give);
  default:
    return Lambda<S, void>::run(h, give);
  }
}

template<int I>
struct GiveDispatcher {
  D &d;
  template<typename F>
  void operator()(F &&f) const {
    d.template replace<I>(std::forward<F>(f));
  }
};
template<int I>
struct GiveElement { // through the actions of the dispatcher
  upd::action &a;
  template<typename F>
  void operator()(F &&f) const {
    a = upd::action{std::forward<F>(f), eh, sh};
  }
};
struct GiveAction {
  std::unique_ptr<upd::action> &a;
  template<typename F>
  void operator()(F &&f) const {
    std::unique_ptr<upd::action> n(new upd::action{std::forward<F>(f), eh, sh});
    a = std::move(n);
  }
};
struct GiveHook {
  std::unique_ptr<upd::action> &a;
  template<typename F>
  void operator()(F &&f) const {
    const auto k = KR{}.get(H(f1){});
    std::unique_ptr<upd::action> n(new upd::action(k.with_hook(std::forward<F>(f))));
    a = std::move(n);
  }
};
struct GiveVector {
  template<typename F>
  void operator()(F &&f) const {
    heap_actions->emplace_back(std::forward<F>(f), eh, sh);
  }
};

template<template<int> class Op, typename... A>
static auto on_sig(int sig, A &&...a) -> decltype(Op<0>::run(std::forward<A>(a)...)) {
  switch (sig) {
  case 0:
    return Op<0>::run(std::forward<A>(a)...);
  case 1:
    return Op<1>::run(std::forward<A>(a)...);
  case 2:
    return Op<2>::run(std::forward<A>(a)...);
  case 3:
    return Op<3>::run(std::forward<A>(a)...);
  default:
    return Op<4>::run(std::forward<A>(a)...);
  }
}
template<int I>
struct ReplaceFunctor {
  static void run(DispSlot &s) {
    if (G->chance(1, 6))
      give_any<I>(s.held[I], GiveElement<I>{(*s.d)[I]});
    else
      give_any<I>(s.held[I], GiveDispatcher<I>{*s.d});
  }
};
template<int I>
struct NewAction {
  static void run(ActionSlot &s) {
    // what the slot held is kept when the construction throws
    Held h = empty_held();
    if (G->chance(1, 3))
      give_any<I>(h, GiveHook{s.a});
    else
      give_any<I>(h, GiveAction{s.a});
    if (h.what != Held::EMPTY) {
      s.held = h;
      s.sig = I;
    }
  }
};
template<int I>
struct PushAction {
  static void run() {
    Held h = empty_held();
    give_any<I>(h, GiveVector{});
    if (h.what != Held::EMPTY)
      heap_held.push_back(std::make_pair(I, h));
  }
};
static void replace_function(DispSlot &s, int sig, int which) {
#define R_(I, F, G_)                                                                                                   \
  if (which == 0)                                                                                                      \
    s.d->template replace<I>(H(F){});                                                                                  \
  else                                                                                                                 \
    s.d->template replace<I>(H(G_){});                                                                                 \
  break
  switch (sig) {
  case 0:
    R_(0, f0, g0);
  case 1:
    R_(1, f1, g1);
  case 2:
    R_(2, f2, g2);
  case 3:
    R_(3, f3, g3);
  default:
    R_(4, f4, g4);
  }
  s.held[sig] = Held{Held::FUNCTION, which, 0, 0};
}

//---------------------------------------------------------------- invocations

static void before(const Held &h) {
  invoked = 0;
  plain_calls[0] = plain_calls[1] = 0;
  cs().invoking = true;
  (void)h;
}
static void after(const char *op, const Held &h) {
  cs().invoking = false;
  const int want_functors = h.what == Held::FUNCTOR, want0 = h.what == Held::FUNCTION && h.which == 0, want1 = h.what == Held::FUNCTION && h.which == 1;
  EXPECT(invoked == want_functors && plain_calls[0] == want0 && plain_calls[1] == want1, "invoke", "%s: %d functors and %d+%d functions ran instead of %d and %d+%d", op, invoked, plain_calls[0],
         plain_calls[1], want_functors, want0, want1);
  EXPECT(!want_functors || invoked != 1 || invoked_tag == h.tag, "invoke", "%s: functor %d ran instead of %d", op, int(invoked_tag), int(h.tag));
  st().evaluations++;
}

static void invoke_action(const char *op, upd::action &a, int sig, Held &h) {
  const Args args = gen_args(sig);
  const bool throws = h.what == Held::FUNCTOR && G->chance(1, 8);
  Bytes want = expected(sig, h, args), out;
  if (throws)
    want.clear();
  std::size_t at = 0;
  auto src = [&]() -> u8 { return at < args.bytes.size() ? args.bytes[at++] : (at++, 0); };
  auto dst = [&](u8 b) { out.push_back(b); };
  fuse = throws;
  bool thrown = false;
  before(h);
  try {
    a(src, dst);
  } catch (const Thrown &) {
    thrown = true;
  }
  after(op, h);
  fuse = false;
  EXPECT(thrown == throws, "exception", "%s: thrown %d", op, thrown);
  if (h.what != Held::EMPTY)
    EXPECT(out == want && at == args.bytes.size(), "output", "%s of callback %d: %s instead of %s, %zu bytes read", op, sig, hex(out).c_str(), hex(want).c_str(), at);
}

#if KIND == 0
static void request(DispSlot &s, int sig) {
  Held &h = s.held[sig];
  const Args args = gen_args(sig);
  const bool throws = h.what == Held::FUNCTOR && G->chance(1, 8);
  Bytes want = expected(sig, h, args), out, in{u8(sig)};
  if (throws)
    want.clear();
  in.insert(in.end(), args.bytes.begin(), args.bytes.end());
  std::size_t at = 0;
  auto src = [&]() -> u8 { return at < in.size() ? in[at++] : (at++, 0); };
  auto dst = [&](u8 b) { out.push_back(b); };
  fuse = throws;
  bool thrown = false;
  before(h);
  try {
    (*s.d)(src, dst);
  } catch (const Thrown &) {
    thrown = true;
  }
  after("a request", h);
  fuse = false;
  EXPECT(thrown == throws, "exception", "a request: thrown %d", thrown);
  if (h.what != Held::EMPTY)
    EXPECT(out == want && at == in.size(), "output", "request %d: %s instead of %s, %zu bytes read", sig, hex(out).c_str(), hex(want).c_str(), at);
}
static void traffic(DispSlot &s) { request(s, int(G->below(N))); }
#else
//! Some bytes in or out
static void traffic(DispSlot &s) {
  for (unsigned n = unsigned(1 + G->below(6)); n--;) {
    if (G->chance(1, 3) && !s.pending.empty() && !(KIND == 1 && s.partial >= 0)) {
      EXPECT(s.d->is_loaded(), "status", "a response is missing");
      const u8 b = s.d->get();
      EXPECT(b == s.pending[0], "output", "%02x is read instead of %02x", b, s.pending[0]);
      s.pending.erase(s.pending.begin());
      continue;
    }
    u8 b;
    if (s.partial < 0) {
      int sig = int(G->below(N));
      if (s.held[sig].what == Held::EMPTY)
        return;
      if (KIND == 1)
        s.pending.clear(); // the buffer is shared
      s.args = gen_args(sig);
      s.partial = sig;
      s.rest = s.args.bytes;
      b = u8(sig);
    } else {
      b = s.rest[0];
      s.rest.erase(s.rest.begin());
    }
    const bool last = s.rest.empty();
    Held &h = s.held[s.partial];
    const bool throws = last && h.what == Held::FUNCTOR && G->chance(1, 8);
    Bytes want;
    if (last) {
      want = expected(s.partial, h, s.args);
      if (throws)
        want.clear();
      before(h);
      fuse = throws;
    }
    bool thrown = false;
    upd::packet_status status = upd::packet_status::RESOLVED_PACKET;
    try {
      status = s.d->put(b);
    } catch (const Thrown &) {
      thrown = true;
    }
    if (last) {
      after("a request", h);
      fuse = false;
      EXPECT(thrown == throws, "exception", "a request: thrown %d", thrown);
      s.pending = want;
      s.partial = -1;
      EXPECT(s.d->is_loaded() == !want.empty(), "status", "loaded %d", s.d->is_loaded());
    }
    EXPECT((status == upd::packet_status::RESOLVED_PACKET) == last, "status", "status %d", int(status));
  }
}
#endif

//---------------------------------------------------------------- random histories

static void fresh(DispSlot &s) {
  for (auto &h : s.held)
    h = Held{Held::FUNCTION, 0, 0, 0};
  s.pending.clear();
  s.partial = -1;
  s.rest.clear();
}
static void emptied(DispSlot &s) {
  for (auto &h : s.held)
    h = empty_held();
}
static void take(DispSlot &to, DispSlot &from) {
  for (int i = 0; i < N; i++)
    to.held[i] = from.held[i];
  to.pending = from.pending;
  to.partial = from.partial;
  to.rest = from.rest;
  to.args = from.args;
  emptied(from);
}
//! A moved-from dispatcher is only destroyed or assigned
static bool usable(const DispSlot &s) {
  for (auto &h : s.held)
    if (h.what == Held::EMPTY)
      return false;
  return true;
}

static const char *operate(int depth);
static const char *nested(DispSlot *busy, ActionSlot *busy_action);
static DispSlot *busy_disp;
static ActionSlot *busy_action;

static const char *operate(int depth) {
  switch (G->below(20)) {
  case 0:
  case 1: {
    ActionSlot &s = actions[G->below(ACTIONS)];
    if (&s == busy_action)
      return "nothing";
    on_sig<NewAction>(int(G->below(N)), s);
    return "the construction of an action";
  }
  case 2:
  case 3: {
    ActionSlot &s = actions[G->below(ACTIONS)];
    if (!s.a || &s == busy_action || depth > 0)
      return "nothing";
    st().ev("action invocations");
    if (depth == 0 && s.held.what == Held::FUNCTOR && G->chance(1, 3)) {
      busy_action = &s;
      nested(nullptr, &s);
    }
    invoke_action("an invocation", *s.a, s.sig, s.held);
    during = nullptr;
    busy_action = nullptr;
    return "an invocation";
  }
  case 4: { // moves of actions
    ActionSlot &a = actions[G->below(ACTIONS)], &b = actions[G->below(ACTIONS)];
    if (&a == &b || !a.a || &a == busy_action || &b == busy_action)
      return "nothing";
    st().ev("moves of an action");
    if (!b.a || G->chance(1, 3)) {
      b.a.reset(new upd::action(std::move(*a.a)));
    } else if (G->chance(1, 2)) {
      *b.a = std::move(*a.a);
    } else {
      std::swap(*a.a, *b.a);
      std::swap(a.held, b.held);
      std::swap(a.sig, b.sig);
      return "a swap of actions";
    }
    b.held = a.held;
    b.sig = a.sig;
    a.held = empty_held();
    if (G->chance(1, 2)) // an empty action does nothing
      invoke_action("the invocation of an emptied action", *a.a, a.sig, a.held);
    return "the move of an action";
  }
  case 5: {
    ActionSlot &s = actions[G->below(ACTIONS)];
    if (&s == busy_action)
      return "nothing";
    s.a.reset();
    s.held = empty_held();
    return "the destruction of an action";
  }
  case 6: {
    if (heap_held.size() > 20 || G->chance(1, 12)) {
      delete heap_actions;
      heap_actions = new std::vector<upd::action>();
      heap_held.clear();
      return "the destruction of a vector";
    }
    st().ev("growths of a vector of actions");
    on_sig<PushAction>(int(G->below(N)));
    return "the growth of a vector";
  }
  case 7: {
    if (heap_held.empty())
      return "nothing";
    const std::size_t i = G->below(heap_held.size());
    if (depth == 0 && G->chance(3, 4)) {
      invoke_action("an invocation in a vector", (*heap_actions)[i], heap_held[i].first, heap_held[i].second);
      return "an invocation in a vector";
    }
    heap_actions->erase(heap_actions->begin() + long(i));
    heap_held.erase(heap_held.begin() + long(i));
    return "an erasure from a vector";
  }
  case 8: {
    DispSlot &s = disps[G->below(DISPS)];
    if (&s == busy_disp)
      return "nothing";
    if (G->chance(1, 2)) {
      s.d.reset();
      emptied(s);
      return "the destruction of a dispatcher";
    }
    s.d.reset(new D());
    fresh(s);
    return "the construction of a dispatcher";
  }
  case 9: { // moves of dispatchers, in the middle of anything
    DispSlot &a = disps[G->below(DISPS)], &b = disps[G->below(DISPS)];
    if (&a == &b || !a.d || !usable(a) || &a == busy_disp || &b == busy_disp)
      return "nothing";
    st().ev("moves of a dispatcher");
    if (!b.d || G->chance(1, 2))
      b.d.reset(new D(std::move(*a.d)));
    else
      *b.d = std::move(*a.d);
    take(b, a);
    return "the move of a dispatcher";
  }
  case 10: { // actions in and out of dispatchers
    DispSlot &s = disps[G->below(DISPS)];
    ActionSlot &a = actions[G->below(ACTIONS)];
    if (!s.d || !a.a || a.held.what == Held::EMPTY || &a == busy_action || &s == busy_disp)
      return "nothing";
    st().ev("exchanges between actions and dispatchers");
    // (a dispatcher must keep an action of the right signature)
    std::swap((*s.d)[u8(a.sig)], *a.a);
    std::swap(s.held[a.sig], a.held);
    return "an exchange with an action of a dispatcher";
  }
  case 11:
  case 12:
  case 13: {
    DispSlot &s = disps[G->below(DISPS)];
    const int sig = int(G->below(N));
    if (!s.d || !usable(s) || (&s == busy_disp && s.partial == sig))
      return "nothing";
    st().ev("replacements by functors");
    on_sig<ReplaceFunctor>(sig, s);
    return "a replacement by a functor";
  }
  case 14: {
    DispSlot &s = disps[G->below(DISPS)];
    const int sig = int(G->below(N));
    if (!s.d || !usable(s) || (&s == busy_disp && s.partial == sig))
      return "nothing";
    st().ev("replacements by functions");
    replace_function(s, sig, int(G->below(2)));
    return "a replacement by a function";
  }
  default: {
    if (depth)
      return "nothing";
    DispSlot &s = disps[G->below(DISPS)];
    if (!s.d || !usable(s))
      return "nothing";
    st().ev("requests");
#if KIND == 0
    if (G->chance(1, 3)) {
      const int sig = int(G->below(N));
      busy_disp = &s;
      s.partial = sig;
      nested(&s, nullptr);
      request(s, sig);
      during = nullptr;
      busy_disp = nullptr;
      s.partial = -1;
      return "a request";
    }
#else
    if (s.partial >= 0 && G->chance(1, 3)) {
      busy_disp = &s;
      nested(&s, nullptr);
      traffic(s);
      during = nullptr;
      busy_disp = nullptr;
      return "a request";
    }
#endif
    traffic(s);
    return "a request";
  }
  }
}

static std::function<void()> nested_op;
//! Arranges for another operation to take place inside of the next invocation of a functor
static const char *nested(DispSlot *, ActionSlot *) {
  nested_op = [] {
    // the invocation which is under way is not part of what is counted
    const int i = invoked, a = plain_calls[0], b = plain_calls[1];
    const i64 t = invoked_tag;
    const bool f = fuse;
    fuse = false;
    st().ev("operations inside of an invocation");
    st().current += std::string(", inside: ") + operate(1);
    invoked = i, plain_calls[0] = a, plain_calls[1] = b, invoked_tag = t;
    fuse = f;
  };
  during = &nested_op;
  return "";
}

int main(int argc, char **argv) {
  init(argc, argv);
  const unsigned rounds = unsigned((opt().thorough ? 2000 : 60) * opt().scale);
  for (unsigned r = 0; r < rounds; r++) {
    Rng g(opt().seed * 9973 + r);
    G = &g;
    heap_actions = new std::vector<upd::action>();
    for (auto &s : disps) {
      s.d.reset(new D());
      fresh(s);
    }
    for (auto &s : actions) {
      s.held = empty_held();
      s.sig = 0;
    }
    std::string history;
    u64 hash = 0;
    for (int i = 0; i < 250; i++) {
      st().current = strf("history %u of seed %llu, step %d, after:%s", r, (unsigned long long)opt().seed, i, history.c_str());
      const char *op = operate(0);
      during = nullptr;
      cs().invoking = false;
      history += std::string(" ") + op + ";";
      if (history.size() > 600)
        history.erase(0, history.size() - 600);
      if (std::string(op) != "nothing") {
        st().evaluations++;
        census(op);
        hash = hash_add(hash, hash_str(op));
        hash = hash_add(hash, cs().live.size());
        st().state(hash);
      }
    }
    if (st().wants_sample())
      st().sample("a history that ends with:" + history);
    for (auto &s : disps) {
      s.d.reset();
      emptied(s);
    }
    for (auto &s : actions) {
      s.a.reset();
      s.held = empty_held();
    }
    delete heap_actions;
    heap_held.clear();
    census("the end");
    EXPECT(cs().made == cs().destroyed, "census", "%d functors were made and %d destroyed", int(cs().made), int(cs().destroyed));
  }
  st().ev("functors made", cs().made);
  st().ev("functors copied", cs().copies);
  st().ev("functors moved", cs().moves);
  return finish();
}
