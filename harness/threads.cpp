// C19: threads with dispatchers, keys and tuples of their own, or sharing what is constant, and dispatchers used from
// the callbacks, the sources and the sinks of other ones.
#ifndef THREADED
#define THREADED
#endif
#include "disp.cpp"

#include <atomic>
#include <mutex>
#include <thread>

enum { THREADS = 8 };

struct Barrier {
  std::atomic<int> waiting{0};
  void wait() {
    waiting++;
    while (waiting.load() % THREADS)
      std::this_thread::yield();
  }
};

struct Totals {
  std::mutex m;
  u64 evaluations = 0, violations = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> events;
  std::vector<std::string> samples;
} totals;

//! What the thread observed joins the total
static void hand_over() {
  Stats &s = st();
  s.merge();
  std::lock_guard<std::mutex> lock(totals.m);
  totals.evaluations += s.evaluations;
  totals.violations += u64(s.violations);
  totals.distinct.insert(s.distinct.begin(), s.distinct.end());
  for (auto &e : s.events)
    totals.events[e.first] += e.second;
  totals.events["yields in the middle of library calls"] += disturbance().yields;
  totals.events["dispatchers used inside of the callbacks, sources and sinks of others"] += disturbance().nestings;
  for (auto &x : s.samples)
    if (totals.samples.size() < 6)
      totals.samples.push_back(x);
  s = Stats();
}

//---------------------------------------------------------------- jobs

static void fresh(u64 seed) {
  cw() = CallWorld();
  cw().fmt = W->desc.fmt;
  cw().rng = Rng(seed + 5);
  transcript() = Transcript();
}

//! A short history, which depends on nothing but its seed
static u64 nested_run(u64 seed) {
  fresh(seed);
  Rng g(seed);
  const unsigned kind = unsigned(g.below(5));
  const bool any = POLICIES == 2 && g.chance(1, 2);
#ifdef NO_REPLACE
  const unsigned replace = 0;
  const bool replacing = false;
#else
  const unsigned replace = 2;
  const bool replacing = true;
#endif
  const Mix x = {8, 3, 3, 4, 2, 1, replace, 1, 2, false, false, true, true};
  (void)replacing;
#ifdef WITH_REPLY
  attempt([&] { run_reply(Rng(g.next()), buffered[kind % 3], any, 4); });
  (void)x;
#else
#ifdef NO_PLAIN
  const Kind plain = DOUBLE;
#else
  const Kind plain = PLAIN;
#endif
  if (kind == 4)
    attempt([&] { run_rpc(Rng(g.next()), g.chance(1, 2) ? plain : DOUBLE, any, 3); });
#ifndef NO_PLAIN
  else if (kind == 3)
    attempt([&] { run_plain(Rng(g.next()), any, 3, 2, true, replacing); });
#endif
  else
    attempt([&] { run_mix(Rng(g.next()), KINDS == 1 ? DOUBLE : buffered[kind % 3], any, 6, x); });
#endif
  return hash_add(transcript().hash, transcript().n);
}

//! A piece of work which depends on nothing but its seed
static u64 job(u64 seed, bool nested) {
  st().current = strf("job %llu", (unsigned long long)seed);
  st().max_samples = 1;
  fresh(seed);
  Rng g(seed);
  disturbance().nested = nested ? nested_run : nullptr;
  disturbance().out_of = nested ? 40 : 0;
#ifdef WITH_REPLY
  static const char *const all[] = {"C13"};
#elif defined(NO_REPLACE)
  static const char *const all[] = {"C06", "C07", "C08", "C09", "C12"};
#else
  static const char *const all[] = {"C06", "C07", "C08", "C09", "C12", "C14"};
#endif
  const u64 start = g.below(sizeof all / sizeof *all);
  for (u64 i = 0; i < sizeof all / sizeof *all; i++)
    if (i < 3)
      workload(all[(start + i) % (sizeof all / sizeof *all)], 1, 1, g);
#ifndef WITH_REPLY
  for (int i = 0; i < 40; i++) { // keys
    const std::size_t fn = g.below(W->desc.fns.size());
    const FnDesc &f = W->desc.fns[fn];
    Flat v = gen_values(g, f.args, W->desc.fmt);
    f.norm_args(v);
    observe(f.request(v, int(g.below(3))));
    Bytes b;
    for (std::size_t j = 0; j < f.ret_bytes; j++)
      b.push_back(gen_byte(g));
    Src src(b);
    if (f.decode)
      observe(f.decode(src));
    st().evaluations++;
    st().ev("requests and responses through keys");
  }
#endif
  disturbance().nested = nullptr;
  return hash_add(transcript().hash, transcript().n);
}

//---------------------------------------------------------------- what is constant is shared

struct Pair {
  i16 a;
  u32 b;
};
template<>
struct upd_extension<Pair> {
  template<typename View_T>
  static void serialize(const Pair &p, View_T &v) {
    v.template set<0>(p.a);
    v.template set<1>(p.b);
  }
  static Pair unserialize(i16 a, u32 b) { return Pair{a, b}; }
};

static thread_local i128 hooked;
static i64 f_sum(const std::array<i16, 3> &a, u32 b) { return i64(a[0]) + a[1] + a[2] + b; }
static void f_void(u8 x) { hooked = x; }
static Pair f_pair(const Pair &p, bool neg) { return neg ? Pair{i16(-p.a), p.b} : p; }
static void hook_i64(i64 x) { hooked = x; }
static void hook_pair(Pair p) { hooked = i128(p.a) * 100000 + p.b; }

template<upd::endianess E, upd::signed_mode S>
struct Shared {
  typedef upd::unevaluated<decltype(&f_sum), &f_sum> U0;
  typedef upd::unevaluated<decltype(&f_void), &f_void> U1;
  typedef upd::unevaluated<decltype(&f_pair), &f_pair> U2;
  typedef upd::keyring<E, S, U0, U1, U2> KR;
  typedef upd::dispatcher<KR, upd::action_features::WEAK_REFERENCE> D;
  typedef upd::tuple<E, S, i32, std::array<i16, 3>, Pair, bool, u64> T;

  const KR keyring{};
  const decltype(keyring.get(U0{})) k0{};
  const decltype(keyring.get(U1{})) k1{};
  const decltype(keyring.get(U2{})) k2{};
  const T tuple;
  const D disp{};
  const decltype(k0(std::array<i16, 3>{}, 0u)) message;
  const upd::no_storage_action hook0, hook2;
  const Bytes bytes;
  const upd::tuple_view<const u8 *, E, S, i32, i16, u8> view;

  Shared()
      : tuple(i32(-77777), std::array<i16, 3>{{-1, 2, 300}}, Pair{-5, 99999}, true, u64(1) << 50), message(k0(std::array<i16, 3>{{-7, 8, 9}}, 70000u)),
        hook0(k0.with_hook(upd::unevaluated<decltype(&hook_i64), &hook_i64>{})), hook2(k2.with_hook(upd::unevaluated<decltype(&hook_pair), &hook_pair>{})),
        bytes{1, 2, 3, 4, 5, 6, 7}, view(bytes.data()) {}

  //! Uses everything, and returns what was observed
  u64 use(u64 seed) const {
    Rng g(seed);
    u64 h = 1;
    for (int i = 0; i < 200; i++) {
      const u64 r = g.next();
      const i16 a = i16(r), b = i16(r >> 16);
      const u32 c = u32(r >> 32) & 0x7fffffff;
      switch (g.below(8)) {
      case 0: { // a call, all the way
        Dst d, res;
        k0(std::array<i16, 3>{{i16(a / 2), i16(b / 2), 3}}, c).write_to(d);
        h = hash_bytes(h, d.out.data(), d.out.size());
        Src s(d.out);
        D local;
        local(s, res);
        Src s2(res.out), s3(res.out);
        h = hash_add(h, u64(k0.read_from(s2)));
        hook0(s3, [](u8) {});
        h = hash_add(h, u64(hooked));
        break;
      }
      case 1: {
        Dst d, res;
        auto m = k2(Pair{i16(a / 2), c}, r & 1);
        m >> d;
        Src s(d.out);
        disp.get_index(s);
        disp[2](s, res);
        Src s2(res.out), s3(res.out);
        const Pair p = k2.read_from(s2);
        h = hash_add(hash_add(h, u64(p.a)), p.b);
        hook2(s3, [](u8) {});
        h = hash_add(h, u64(hooked));
        break;
      }
      case 2: {
        Dst d;
        message.write_to(d);
        message >> d;
        h = hash_bytes(h, d.out.data(), d.out.size());
        break;
      }
      case 3:
        h = hash_add(h, u64(tuple.template get<0>()));
        h = hash_add(h, tuple.template get<4>());
        h = hash_add(h, u64(upd::get<1>(tuple)[2]));
        h = hash_add(h, u64(tuple.template get<2>().b));
        break;
      case 4:
        for (u8 x : tuple)
          h = hash_add(h, x);
        h = hash_add(h, u64(tuple.template view<2, 2>().template get<0>().a));
        h = hash_add(h, tuple[std::size_t(g.below(T::size))]);
        break;
      case 5:
        h = hash_add(h, u64(tuple.invoke([&](const i32 &x, const std::array<i16, 3> &y, const Pair &z, bool t, u64 u) {
          disturb();
          return i64(x) + y[0] + y[1] + y[2] + z.a + i64(z.b) + t + i64(u);
        })));
        break;
      case 6:
        h = hash_add(h, u64(view.template get<0>()));
        h = hash_add(h, u64(view.template get<1>()) + view.template get<2>());
        break;
      default: { // tuples of its own out of the shared one
        T t(tuple);
        t.template set<0>(i32(a));
        t.template set<2>(Pair{i16(b / 2), c});
        auto v = t.template view<1, 3>();
        v.template set<0>(std::array<i16, 3>{{1, a == -32768 ? i16(0) : a, 3}});
        h = hash_bytes(h, t.begin(), T::size);
        h = hash_add(h, disp[0].input_size() + disp[0].output_size());
        const auto k = keyring.get(U1{});
        Dst d;
        k(u8(r)) >> d;
        Src s(d.out);
        disp.get_index(s);
        disp[1](s, [](u8) {});
        h = hash_add(h, u64(hooked));
      }
      }
      st().evaluations++;
      st().ev("uses of shared constant objects");
    }
    return h;
  }
};

//---------------------------------------------------------------- rounds

template<typename F>
static u64 alone(F f) {
  u64 h = 0;
  std::thread t([&] {
    disturbance().rng = Rng(9);
    h = f();
    hand_over();
  });
  t.join();
  return h;
}

template<typename F>
static std::vector<u64> together(u64 salt, F f) {
  std::vector<u64> h(THREADS);
  Barrier b;
  std::vector<std::thread> ts;
  for (int i = 0; i < THREADS; i++)
    ts.emplace_back([&, i] {
      disturbance().rng = Rng(salt * 100 + u64(i));
      b.wait();
      h[std::size_t(i)] = f(i);
      hand_over();
    });
  for (auto &t : ts)
    t.join();
  return h;
}

template<upd::endianess E, upd::signed_mode S>
static void shared_rounds(u64 rounds) {
  const Shared<E, S> shared;
  for (u64 r = 0; r < rounds; r++) {
    const u64 seed = opt().seed * 1000 + r;
    u64 want[THREADS];
    for (int i = 0; i < THREADS; i++)
      want[i] = alone([&] { return shared.use(seed + u64(i % 3)); });
    const std::vector<u64> got = together(seed, [&](int i) { return shared.use(seed + u64(i % 3)); });
    st().current = strf("shared constant objects, round %llu", (unsigned long long)r);
    for (int i = 0; i < THREADS; i++)
      EXPECT(got[std::size_t(i)] == want[i], "difference", "thread %d did not observe with the others what it observes alone", i);
    st().ev("rounds of threads sharing constant objects");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  World world = the_world();
  W = &world;
  const u64 rounds = (opt().thorough ? 20 : 1) * opt().scale;

  for (u64 r = 0; r < rounds; r++) {
    // first of all, while nothing was initialized yet
    const u64 seed = opt().seed * 7919 + r * 100;
    const std::vector<u64> got = together(r, [&](int i) { return job(seed + u64(i % 5), false); });
    // dispatchers inside of the callbacks, sources and sinks of other ones
    std::vector<std::pair<u64, u64>> outcomes;
    const std::vector<u64> disturbed = together(r + 1, [&](int i) {
      const u64 h = job(seed + u64(i % 5), true);
      std::lock_guard<std::mutex> lock(totals.m);
      outcomes.insert(outcomes.end(), disturbance().outcomes.begin(), disturbance().outcomes.end());
      return h;
    });
    u64 want[5];
    for (u64 i = 0; i < 5; i++)
      want[i] = alone([&] { return job(seed + i, false); });
    for (u64 i = 0; i < THREADS; i++) {
      st().current = strf("job %llu", (unsigned long long)(seed + i % 5));
      EXPECT(got[i] == want[i % 5], "difference", "the job does not observe the same with other threads around as alone");
      EXPECT(disturbed[i] == want[i % 5], "difference", "the job does not observe the same with other dispatchers used in the middle of it as alone");
    }
    for (auto &o : outcomes) {
      const u64 h = alone([&] { return nested_run(o.first); });
      st().current = strf("history %llu", (unsigned long long)o.first);
      EXPECT(o.second == h, "difference", "a history does not observe the same in the middle of another one as alone");
    }
    st().ev("nested histories run again alone", outcomes.size());
    st().ev("rounds of threads with objects of their own");
  }
  shared_rounds<upd::endianess::LITTLE, upd::signed_mode::TWOS_COMPLEMENT>(2 * rounds);
  shared_rounds<upd::endianess::BIG, upd::signed_mode::SIGNED_MAGNITUDE>(2 * rounds);

  Stats &s = st();
  s.evaluations += totals.evaluations;
  s.violations += int(totals.violations);
  s.distinct.insert(totals.distinct.begin(), totals.distinct.end());
  for (auto &e : totals.events)
    s.events[e.first] += e.second;
  s.samples.insert(s.samples.end(), totals.samples.begin(), totals.samples.end());
  return finish();
}
