// C05, C17: what keys send and what they make of responses.
#include "world.hpp"

static Rng *G;

//---------------------------------------------------------------- C05

static void check_requests(const WorldDesc &w, unsigned rounds) {
  Rng &g = *G;
  std::set<Bytes> seen;
  EXPECT(w.advertised_size == w.fns.size(), "size", "%s: the keyring says it holds %llu callbacks instead of %zu", w.name.c_str(),
         (unsigned long long)w.advertised_size, w.fns.size());
  for (std::size_t i = 0; i < w.fns.size(); i++) {
    const FnDesc &f = w.fns[i];
    const std::size_t len = w.index_size + f.arg_bytes;
    st().current = strf("%s key %zu", w.name.c_str(), i);
    EXPECT(f.key_index == i, "index", "%s: the index of key %zu is %llu", w.name.c_str(), i, (unsigned long long)f.key_index);
    EXPECT(f.payload_length == len, "payload_length", "%s: payload_length of key %zu is %zu instead of %zu", w.name.c_str(), i, f.payload_length, len);
    Bytes index;
    ref_encode(index, i128(i), w.index_scalar(), w.fmt);
    EXPECT(seen.insert(index).second, "unique", "%s: key %zu shares its index", w.name.c_str(), i);
    for (unsigned r = 0; r < (f.args.empty() ? 3 : rounds); r++) {
      Flat v = gen_values(g, f.args, w.fmt);
      f.norm_args(v);
      const Bytes args = ref_encode(v, f.args, w.fmt);
      Bytes want = index;
      want.insert(want.end(), args.begin(), args.end());
      for (int form = 0; form < 3; form++) {
        const Bytes got = f.request(v, form);
        EXPECT(got == want, "request", "%s: key %zu given %s sends %s instead of %s", w.name.c_str(), i, dec(v).c_str(), hex(got).c_str(), hex(want).c_str());
        st().evaluations++;
      }
      st().state(hash_bytes(hash_str(w.name), want.data(), want.size()));
      st().ev(f.args.empty() ? "packets without argument" : "packets with arguments");
      if (i + 3 < w.fns.size() && st().wants_sample() && g.chance(1, 30))
        st().sample(strf("%s key %zu%s -> %s", w.name.c_str(), i, dec(v).c_str(), hex(want).c_str()));
    }
  }
  st().ev("keyrings");
}

#ifdef FORMS
// Every way to build a keyring and to get a key, with implicit conversions of the arguments
static u8 fn0(u8) { return 0; }
static void fn1(i16, bool) {}
static u16 fn2() { return 0; }
static i64 fn3(const i32 &, Pad) { return 0; }
typedef upd::unevaluated<decltype(&fn0), &fn0> H0;
typedef upd::unevaluated<decltype(&fn1), &fn1> H1;
typedef upd::unevaluated<decltype(&fn2), &fn2> H2;
typedef upd::unevaluated<decltype(&fn3), &fn3> H3;

template<typename M>
static void same(const char *what, M &&m, const Bytes &want) {
  for (int i = 0; i < 3; i++) { // a message may be written any number of times
    Dst d;
    const auto &c = m;
    if (i == 1)
      m >> d;
    else
      c.write_to(d);
    EXPECT(d.out == want, "request", "%s: %s is sent instead of %s", what, hex(d.out).c_str(), hex(want).c_str());
    st().evaluations++;
  }
  st().ev("packets built by other forms");
}
template<upd::endianess E, upd::signed_mode S>
static void forms() {
  const Fmt f = fmt_of<E, S>();
  typedef upd::keyring<E, S, H0, H1, H2, H3> KR;
  const KR kr{};
  const auto kr2 = upd::make_keyring(upd::flist_t<H0, H1, H2, H3>{}, upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
  static_assert(std::is_same<typename std::remove_cv<decltype(kr2)>::type, KR>::value, "");
  Rng &g = *G;
  for (int i = 0; i < 400; i++) {
    const int a = int(g.below(256));
    const long b = long(gen_value(g, Scalar{2, true, false}, f));
    const int c = int(g.below(3)); // converts to bool
    long long d = (long long)gen_value(g, Scalar{4, true, false}, f);
    Pad p{u8(g.next()), i32(gen_value(g, Scalar{4, true, false}, f))};
    Bytes w0{0, u8(a)}, w1{1}, w2{2}, w3{3};
    ref_encode(w1, b, Scalar{2, true, false}, f);
    w1.push_back(c != 0);
    ref_encode(w3, d, Scalar{4, true, false}, f);
    w3.push_back(p.a);
    ref_encode(w3, p.b, Scalar{4, true, false}, f);
    st().current = strf("%s forms %d %ld %d %lld", fmt_name(f).c_str(), a, b, c, d);
    same("get(handle)", kr.get(H0{})(u8(a)), w0);
    same("get(handle)", kr.get(H1{})(i16(b), c != 0), w1);
    same("get(handle)", kr2.get(H2{})(), w2);
    same("int given for a u8", kr2.get(H0{})(a), w0);
    same("long given for an i16, int for a bool", kr.get(H1{})(b, c), w1);
    {
      i32 x = i32(d);
      auto m = kr.get(H3{})(x, p);
      x = 99; // the message holds the values it was given
      p = Pad{1, 2};
      same("lvalues changed since", m, w3);
      auto m2 = std::move(m);
      same("moved message", m2, w3);
    }
    {
      typename KR::template key_t<H1> k1;
      const auto k2 = k1; // keys are values
      same("copied key", k2(i16(b), c == 1 || c == 2), w1);
    }
#if __cplusplus >= 201703L
    same("get<function>", kr.template get<fn0>()(u8(a)), w0);
    same("get<function>", kr.template get<fn1>()(i16(b), c != 0), w1);
    same("UPD_CTREF", kr.get(UPD_CTREF(fn2))(), w2);
    const upd::keyring kr3{upd::flist<fn0, fn1, fn2>, upd::endianess_h<E>{}, upd::signed_mode_h<S>{}};
    same("deduced keyring", kr3.template get<fn1>()(i16(b), c != 0), w1);
#endif
    st().state(hash_bytes(hash_bytes(hash_str(fmt_name(f)), w1.data(), w1.size()), w3.data(), w3.size()));
  }
}
#endif

//---------------------------------------------------------------- C17

static void check_hooks(const WorldDesc &w, unsigned rounds) {
  Rng &g = *G;
  for (std::size_t i = 0; i < w.fns.size(); i++) {
    const FnDesc &f = w.fns[i];
    if (!f.hook)
      continue;
    for (unsigned r = 0; r < rounds; r++) {
      const int times = 1 + int(g.below(3));
      std::vector<Flat> values;
      Bytes stream;
      for (int t = 0; t < times; t++) {
        Bytes b;
        if (g.chance(1, 3)) // whatever the bytes
          for (std::size_t j = 0; j < f.ret_bytes; j++)
            b.push_back(gen_byte(g));
        else {
          Flat v = gen_values(g, f.ret, w.fmt);
          b = ref_encode(v, f.ret, w.fmt);
        }
        values.push_back(f.decode_ret(b.data(), w.fmt));
        stream.insert(stream.end(), b.begin(), b.end());
      }
      const std::size_t len = stream.size();
      for (int j = 0; j < 5; j++)
        stream.push_back(gen_byte(g)); // of the next response
      const Bytes untouched = stream;
      const int form = int(g.below(HOOK_FORMS));
      st().current = strf("%s hook on key %zu, form %d, %d times, stream %s", w.name.c_str(), i, form, times, hex(stream).c_str());
      cw().log.clear();
      Src src(stream);
      try {
        f.hook(src, form, times);
      } catch (Overrun &) {
        violation("pull", "the hook reads past the stream");
        return;
      }
      EXPECT(src.pulled == len, "pull", "%d calls of the hook read %zu bytes instead of %zu", times, src.pulled, len);
      EXPECT(cw().log.size() == std::size_t(times), "invoke", "the hook was invoked %zu times instead of %d", cw().log.size(), times);
      for (std::size_t t = 0; t < cw().log.size() && t < values.size(); t++) {
        const CallRec &c = cw().log[t];
        EXPECT(c.id == int(i) && c.variant == 0, "invoke", "another hook was invoked (%d, %d)", c.id, c.variant);
        EXPECT(c.args == values[t], "value", "the hook was given %s instead of %s", dec(c.args).c_str(), dec(values[t]).c_str());
      }
      // Blocking decoding
      Src again(stream);
      try {
        for (int t = 0; t < times; t++) {
          const Flat v = f.decode(again);
          EXPECT(v == values[std::size_t(t)], "value", "read_from returns %s instead of %s", dec(v).c_str(), dec(values[std::size_t(t)]).c_str());
        }
      } catch (Overrun &) {
        violation("pull", "read_from reads past the stream");
        return;
      }
      EXPECT(again.pulled == len, "pull", "read_from reads %zu bytes instead of %zu", again.pulled, len);
      EXPECT(stream == untouched, "stream", "the stream was modified");
      st().evaluations += u64(times) * 2;
      st().state(hash_add(hash_bytes(hash_str(w.name), stream.data(), len), u64(form) * 100 + i));
      st().ev(f.is_void ? "void responses" : "responses hooked and decoded");
      if (st().wants_sample() && g.chance(1, 40))
        st().sample(st().current);
    }
  }
}

#ifdef END_TO_END
//! The response is made by a real dispatcher
static void check_end_to_end(const World &world, unsigned rounds) {
  Rng &g = *G;
  const WorldDesc &w = world.desc;
  DispPtr d = world.disp(PLAIN, false);
  cw().rng = Rng(g.next());
  for (unsigned r = 0; r < rounds; r++) {
    const std::size_t i = g.below(w.fns.size());
    const FnDesc &f = w.fns[i];
    Flat v = gen_values(g, f.args, w.fmt);
    f.norm_args(v);
    cw().log.clear();
    const Bytes req = f.request(v, int(g.below(3)));
    const int form = int(g.below(HOOK_FORMS));
    st().current = strf("%s call %zu%s, hook form %d", w.name.c_str(), i, dec(v).c_str(), form);
    Src src(req);
    Dst dst;
    d->process(src, dst);
    if (cw().log.size() != 1 || cw().log[0].id != int(i)) {
      st().ev("other: dispatch");
      continue;
    }
    const Flat ret = cw().log[0].ret;
    cw().log.clear();
    Src res(dst.out);
    try {
      f.hook(res, form, 1);
    } catch (Overrun &) {
      violation("pull", "the hook reads past the response");
      return;
    }
    EXPECT(res.pulled == dst.out.size(), "pull", "the hook reads %zu bytes of a response of %zu", res.pulled, dst.out.size());
    EXPECT(cw().log.size() == 1, "invoke", "the hook was invoked %zu times", cw().log.size());
    if (!cw().log.empty())
      EXPECT(cw().log[0].args == ret, "value", "the hook was given %s, the callback returned %s", dec(cw().log[0].args).c_str(), dec(ret).c_str());
    st().evaluations++;
    st().state(hash_bytes(hash_str(w.name) + u64(form), dst.out.data(), dst.out.size()));
    st().ev("responses of dispatchers hooked");
  }
}
#endif

int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(opt().seed * 131 + 5);
  G = &g;
  const unsigned k = unsigned((opt().thorough ? 20 : 1) * opt().scale);
  const bool hooks = opt().prop == "C17";
#ifdef END_TO_END
  const World world = the_world();
  check_end_to_end(world, 4000 * k);
  check_hooks(world.desc, 500 * k);
#elif defined(FORMS)
#define ONE(E, S) forms<upd::endianess::E, upd::signed_mode::S>();
  for (unsigned i = 0; i < k; i++) {
    FOR_ALL_FORMATS(ONE)
  }
#else
  for (const WorldDesc &w : AllFormats<WORLD>::all(STR(WORLD))) {
    if (hooks || opt().prop == "C26")
      check_hooks(w, (w.fns.size() > 20 ? 40 : 400) * k);
    if (!hooks)
      check_requests(w, (w.fns.size() > 20 ? 8 : 600) * k);
  }
#endif
  (void)hooks;
  (void)check_requests;
  return finish();
}
