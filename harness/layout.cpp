// C03, C04, C26: layout of tuples, views, assignment, invocation.
#include "layout.hpp"

static Rng *G;

//---------------------------------------------------------------- judges

static std::string at(const Store &s, const char *what, std::size_t i) { return s.name + strf(" of %zu elements: %s element %zu", s.elems.size(), what, i); }

static Flat values_for(Rng &g, const Elem &e, Fmt f) {
  Flat v = gen_values(g, e.scalars, f);
  e.norm(v);
  return v;
}
static Flat random_values(Rng &g, const Elem &e, Fmt f) {
  for (;;) {
    Flat v = values_for(g, e, f);
    bool ok = true;
    for (std::size_t i = 0; i < v.size(); i++)
      ok = ok && representable(v[i], e.scalars[i], f);
    if (ok)
      return v;
  }
}

//! Read every element: values are those of the bytes and nothing changes
static void judge_reads(Store &s) {
  const Bytes m = s.memory();
  Flat all;
  for (std::size_t i = 0; i < s.elems.size(); i++) {
    const Elem &e = s.elems[i];
    const Flat want = e.decode(m.data() + s.margin + e.offset, s.fmt);
    all.insert(all.end(), want.begin(), want.end());
    for (int form = 0; form < 2; form++) {
      st().current = at(s, "get", i) + " in " + hex(m);
      dirty_stack();
      const Flat got = s.get(i, form);
      observe(got);
      EXPECT(got == want, "get", "%s: %s is read instead of %s", at(s, "get", i).c_str(), dec(got).c_str(), dec(want).c_str());
      EXPECT(s.memory() == m, "get-modifies", "%s modifies %s into %s", at(s, "get", i).c_str(), hex(m).c_str(), hex(s.memory()).c_str());
      st().evaluations++;
    }
    st().ev("elements read");
  }
  (void)all;
}

static void judge_invoke(Store &s) {
  const Bytes m = s.memory();
  Flat all;
  for (auto &e : s.elems) {
    const Flat v = e.decode(m.data() + s.margin + e.offset, s.fmt);
    all.insert(all.end(), v.begin(), v.end());
  }
  for (int form = 0; form < s.invoke_forms(); form++) {
    st().current = s.name + strf(" invoke form %d on ", form) + hex(m);
    dirty_stack();
    const InvokeResult r = s.invoke(form);
    observe(r.args);
    EXPECT(r.calls == 1, "invoke", "%s: form %d called the functor %d times", s.name.c_str(), form, r.calls);
    EXPECT(r.args == all, "invoke", "%s: form %d gave %s instead of %s", s.name.c_str(), form, dec(r.args).c_str(), dec(all).c_str());
    EXPECT(r.returned == r.expected, "invoke", "%s: form %d did not return what the functor returned", s.name.c_str(), form);
    EXPECT(s.memory() == m, "invoke", "%s: invoke modifies the bytes", s.name.c_str());
    st().evaluations++;
    st().ev("invocations");
  }
}

static void judge_sizes(Store &s) {
  st().current = s.name + " size";
  EXPECT(s.advertised == s.bytes(), "size", "%s: size is %zu instead of %zu", s.name.c_str(), s.advertised, s.bytes());
  EXPECT(s.ends_ok(), "range", "%s: begin, end, src or operator[] do not designate the %zu bytes", s.name.c_str(), s.bytes());
}

static void judge_content(Store &s, const std::vector<Flat> &values, const char *what) {
  const Bytes m = s.memory();
  Bytes want;
  for (std::size_t i = 0; i < values.size(); i++) {
    const Bytes b = ref_encode(values[i], s.elems[i].scalars, s.fmt);
    want.insert(want.end(), b.begin(), b.end());
  }
  const Bytes got(m.begin() + long(s.margin), m.begin() + long(s.margin + s.bytes()));
  observe(got);
  EXPECT(got == want, "layout", "%s: %s gives %s instead of %s", s.name.c_str(), what, hex(got).c_str(), hex(want).c_str());
  st().evaluations++;
  st().state(hash_bytes(hash_str(s.name), want.data(), want.size()));
  if (st().wants_sample() && G->chance(1, 20))
    st().sample(s.name + " " + what + " " + hex(want));
}

//! Random sets, raw bytes and gets
static void judge_history(Store &s, unsigned steps) {
  Rng &g = *G;
  const std::size_t n = s.elems.size();
  Bytes shadow = s.memory();
  for (unsigned step = 0; step < steps; step++) {
#ifdef VALUES
    if (g.chance(1, 4)) {
      const int how = int(g.below(10));
      st().current = s.name + strf(" copied or moved (%d) with ", how) + hex(shadow);
      if (s.relocate(how)) {
        const Bytes m = s.memory();
        observe(m);
        EXPECT(m == shadow, "values", "%s: the copy (%d) of %s is %s", s.name.c_str(), how, hex(shadow).c_str(), hex(m).c_str());
        EXPECT(s.ends_ok(), "values", "%s: the copy (%d) does not designate its own bytes", s.name.c_str(), how);
        judge_reads(s);
        st().evaluations++;
        st().ev("tuples and views copied or moved");
      }
    }
#endif
    if (s.readonly || g.chance(1, 4)) { // whatever bytes
      const std::size_t i = g.below(n);
      for (std::size_t k = 0; k < s.elems[i].bytes; k++) {
        const std::size_t pos = s.margin + s.elems[i].offset + k;
        s.poke(pos, shadow[pos] = gen_byte(g));
      }
      st().ev("elements overwritten by raw bytes");
    } else {
      const std::size_t i = g.below(n);
      const Elem &e = s.elems[i];
      const Flat v = random_values(g, e, s.fmt);
      const Bytes b = ref_encode(v, e.scalars, s.fmt);
      const Bytes before = shadow;
      std::copy(b.begin(), b.end(), shadow.begin() + long(s.margin + e.offset));
      st().current = at(s, "set", i) + " to " + dec(v) + " in " + hex(before);
      const int form = int(g.below(2));
      dirty_stack();
      s.set(i, v, form);
      const Bytes m = s.memory();
      observe(m);
      EXPECT(m == shadow, "set", "%s to %s turns %s into %s instead of %s", at(s, "set", i).c_str(), dec(v).c_str(), hex(before).c_str(), hex(m).c_str(), hex(shadow).c_str());
      shadow = m;
      st().evaluations++;
      st().ev("elements set");
    }
    if (step % 8 == 7)
      judge_reads(s);
    st().state(hash_bytes(hash_str(s.name), shadow.data(), shadow.size()));
  }
}

//---------------------------------------------------------------- stores of every kind

struct AnyFactory {
  StorePtr (*make_default)();
  StorePtr (*make_values)(const std::vector<Flat> &, int);
  std::vector<StorePtr> (*views)();
};

template<upd::endianess E, upd::signed_mode S, typename L>
struct Make {
  static StorePtr make_default() { return StorePtr(new TupleStore<E, S, L>()); }
  static StorePtr make_values(const std::vector<Flat> &v, int form) { return StorePtr(new TupleStore<E, S, L>(v, form)); }
  static std::vector<StorePtr> views() {
    std::vector<StorePtr> l;
    l.emplace_back(new TrackStore<E, S, false, L>("view<tracking iterator>"));
    l.emplace_back(new BlockStore<u8 *, E, S, false, L>("view<pointer>"));
    l.emplace_back(new ViewStore<std::list<u8>, std::list<u8>::iterator, E, S, false, L>("view<list iterator>"));
    l.emplace_back(new SubStore<E, S, false, L>("part of a tuple"));
#ifdef MORE
    l.emplace_back(new ViewStore<std::deque<u8>, std::deque<u8>::iterator, E, S, false, L>("view<deque iterator>"));
    l.emplace_back(new ViewStore<Bytes, Bytes::iterator, E, S, false, L>("view<vector iterator>"));
    l.emplace_back(new ViewStore<std::forward_list<u8>, std::forward_list<u8>::iterator, E, S, false, L>("view<forward_list iterator>"));
    l.emplace_back(new SubStore<E, S, true, L>("part of a const tuple"));
    l.emplace_back(new BlockStore<const u8 *, E, S, true, L>("view<const pointer>"));
    l.emplace_back(new TrackStore<E, S, true, L>("view<const tracking iterator>"));
    l.emplace_back(new ViewStore<std::list<u8>, std::list<u8>::const_iterator, E, S, true, L>("view<list const_iterator>"));
#endif
    return l;
  }
  static AnyFactory factory() { return AnyFactory{make_default, make_values, views}; }
};

static void run_layout(const AnyFactory &f, unsigned k, bool invoke) {
  Rng &g = *G;
  StorePtr d = f.make_default();
  judge_sizes(*d);
  std::vector<Flat> zeros, empty;
  for (auto &e : d->elems)
    zeros.push_back(Flat(e.scalars.size(), 0));
  judge_content(*d, zeros, "default construction");
  judge_reads(*d);
  judge_history(*d, 60 * k);
  if (invoke)
    judge_invoke(*d);
  for (unsigned r = 0; r < 20 * k; r++) {
    std::vector<Flat> v;
    for (auto &e : d->elems)
      v.push_back(random_values(g, e, d->fmt));
    StorePtr t = f.make_values(v, int(r % 3));
    judge_content(*t, v, "construction");
    if (r % 4 == 0)
      judge_reads(*t);
    if (invoke)
      judge_invoke(*t);
    st().ev("tuples constructed");
  }
  for (auto &s : f.views()) {
    judge_sizes(*s);
    for (unsigned r = 0; r < (s->readonly ? 1 : 4) * k; r++) {
      judge_history(*s, 30);
      if (invoke)
        judge_invoke(*s);
    }
    st().ev("views followed");
  }
}

//---------------------------------------------------------------- assignment

#ifdef ASSIGN
static std::vector<Flat> common_values(Rng &g, const Store &a, const Store &b) {
  std::vector<Flat> l;
  for (auto &e : a.elems)
    for (;;) {
      Flat v = random_values(g, e, a.fmt);
      bool ok = true;
      for (std::size_t i = 0; i < v.size(); i++)
        ok = ok && representable(v[i], e.scalars[i], b.fmt);
      if (ok) {
        l.push_back(v);
        break;
      }
    }
  return l;
}
static void judge_assign(AssignCase &c, unsigned rounds) {
  Rng &g = *G;
  for (unsigned r = 0; r < rounds; r++) {
    const std::vector<Flat> v = common_values(g, *c.dst, *c.src);
    // some bytes in the destination, the values in the source
    for (std::size_t i = 0; i < c.dst->bytes(); i++)
      c.dst->poke(c.dst->margin + i, u8(g.next()));
    std::size_t pos = c.src->margin;
    for (std::size_t i = 0; i < v.size(); i++)
      for (u8 b : ref_encode(v[i], c.src->elems[i].scalars, c.src->fmt))
        c.src->poke(pos++, b);
    const Bytes src = c.src->memory();
    Bytes want = c.dst->memory();
    pos = c.dst->margin;
    for (std::size_t i = 0; i < v.size(); i++)
      for (u8 b : ref_encode(v[i], c.dst->elems[i].scalars, c.dst->fmt))
        want[pos++] = b;
    st().current = c.name + " of " + hex(src);
    dirty_stack();
    c.assign();
    const Bytes got = c.dst->memory();
    observe(got);
    EXPECT(got == want, "assign", "%s of %s gives %s instead of %s", c.name.c_str(), hex(src).c_str(), hex(got).c_str(), hex(want).c_str());
    EXPECT(c.src->memory() == src, "assign", "%s modifies its source", c.name.c_str());
    st().evaluations++;
    st().ev("assignments");
    st().state(hash_bytes(hash_str(c.name), want.data(), want.size()));
    if (st().wants_sample() && g.chance(1, 300))
      st().sample(st().current);
  }
}

template<typename D, typename S>
struct Assigner {
  static AssignCase make(D *d, S *s) {
    AssignCase c;
    c.dst.reset(d);
    c.src.reset(s);
    c.name = d->name + " = " + s->name;
    c.assign = [=] {
      auto *p = [&] {
        LIB("an assignment");
        return &(d->v() = std::move(s->v()));
      }();
      auto &r = *p;
      EXPECT(&r == &d->v(), "assign", "assignment does not return its left hand side");
    };
    return c;
  }
};
template<typename D, typename S>
static AssignCase assigner(D *d, S *s) {
  return Assigner<D, S>::make(d, s);
}
// a tracking destination
template<typename D, typename S>
static AssignCase tracking(D *d, S *s) {
  AssignCase c = assigner(d, s);
  const auto f = c.assign;
  c.assign = [=] {
    d->allow(0, d->bytes());
    f();
    d->check("assignment");
  };
  return c;
}

//! Both views are on the same memory, as when a packet is converted where it is
template<upd::endianess E, upd::signed_mode S, upd::endianess E2, upd::signed_mode S2, typename L>
struct Overlap;
template<upd::endianess E, upd::signed_mode S, upd::endianess E2, upd::signed_mode S2, typename... Ts>
struct Overlap<E, S, E2, S2, Types<Ts...>> {
  template<typename It>
  static void judge(unsigned rounds) {
    Rng &g = *G;
    // only for what is known of the elements
    TupleStore<E, S, Types<Ts...>> a;
    TupleStore<E2, S2, Types<Ts...>> b;
    const std::size_t n = a.bytes();
    for (unsigned r = 0; r < rounds; r++) {
      const std::vector<Flat> v = common_values(g, a, b);
      const std::size_t shift = g.chance(1, 4) ? 0 : g.chance(1, 2) ? 1 + g.below(std::min<std::size_t>(n, 9)) : g.below(n + 1);
      const bool forwards = g.chance(1, 2);
      Bytes mem(n + shift);
      for (auto &x : mem)
        x = u8(g.next());
      std::size_t pos = forwards ? shift : 0;
      for (std::size_t i = 0; i < v.size(); i++)
        for (u8 x : ref_encode(v[i], b.elems[i].scalars, b.fmt))
          mem[pos++] = x;
      Bytes want = mem;
      pos = forwards ? 0 : shift;
      for (std::size_t i = 0; i < v.size(); i++)
        for (u8 x : ref_encode(v[i], a.elems[i].scalars, a.fmt))
          want[pos++] = x;
      st().current = strf("view %s at %zu = view %s at %zu of %s", fmt_name(a.fmt).c_str(), forwards ? 0 : shift, fmt_name(b.fmt).c_str(), forwards ? shift : 0,
                          hex(mem).c_str());
      dirty_stack();
      {
        auto dst = upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, mem.data() + (forwards ? 0 : shift));
        LIB("an assignment");
        dst = upd::make_view<Ts...>(upd::endianess_h<E2>{}, upd::signed_mode_h<S2>{}, It(mem.data() + (forwards ? shift : 0)));
      }
      observe(mem);
      EXPECT(mem == want, "assign", "%s gives %s instead of %s", st().current.c_str(), hex(mem).c_str(), hex(want).c_str());
      st().evaluations++;
      st().ev(shift < n ? "assignments between overlapping views" : "assignments within a buffer");
    }
  }
};

template<upd::endianess E, upd::signed_mode S, typename L>
struct AssignTo {
  template<upd::endianess E2, upd::signed_mode S2>
  static void from(unsigned k) {
    AssignCase cs[] = {
        assigner(new TupleStore<E, S, L>(), new TupleStore<E2, S2, L>()),
        assigner(new TupleStore<E, S, L>(), new ViewStore<std::list<u8>, std::list<u8>::iterator, E2, S2, false, L>("view<list iterator>")),
        tracking(new TrackStore<E, S, false, L>("view<tracking iterator>"), new TupleStore<E2, S2, L>()),
        assigner(new BlockStore<u8 *, E, S, false, L>("view<pointer>"), new SubStore<E2, S2, true, L>("part of a const tuple")),
    };
    for (auto &c : cs)
      judge_assign(c, 25 * k);
    Overlap<E, S, E2, S2, L>::template judge<u8 *>(25 * k);
    Overlap<E, S, E2, S2, L>::template judge<const u8 *>(10 * k);
  }
};
#endif

//---------------------------------------------------------------- other forms

#ifdef FORMS
template<upd::endianess E, upd::signed_mode S>
static void forms() {
  Rng &g = *G;
  const Fmt f = fmt_of<E, S>();
  const auto eh = upd::endianess_h<E>{};
  const auto sh = upd::signed_mode_h<S>{};
  const Scalar s8{1, false, false}, s16{2, true, false}, s32{4, true, false}, s64{8, true, false};
  for (int k = 0; k < 300; k++) {
    const u8 a = u8(g.next());
    const i16 b = i16(gen_value(g, s16, f)), b2 = i16(gen_value(g, s16, f));
    const i64 c = i64(gen_value(g, s64, f));
    const std::array<i32, 2> d{{i32(gen_value(g, s32, f)), i32(gen_value(g, s32, f))}};
    Pad p{u8(g.next()), i32(gen_value(g, s32, f))};
    st().current = strf("%s forms with %d %d %lld", fmt_name(f).c_str(), a, b, (long long)c);
    auto t = upd::make_tuple(eh, sh, a, b, c, d, p);
    Bytes want{a};
    ref_encode(want, b, s16, f);
    ref_encode(want, c, s64, f);
    ref_encode(want, d[0], s32, f);
    ref_encode(want, d[1], s32, f);
    want.push_back(p.a);
    ref_encode(want, p.b, s32, f);
    EXPECT(Bytes(t.begin(), t.end()) == want, "layout", "make_tuple lays %s instead of %s", hex(t.begin(), t.size).c_str(), hex(want).c_str());
    const auto z = upd::make_tuple<u8, i16, std::array<bool, 2>>(eh, sh);
    Bytes zero{0};
    ref_encode(zero, 0, s16, f);
    zero.push_back(0), zero.push_back(0);
    EXPECT(Bytes(z.begin(), z.end()) == zero, "layout", "make_tuple<Ts...>() lays %s instead of %s", hex(z.begin(), z.size).c_str(), hex(zero).c_str());
    // free get and set
    EXPECT(upd::get<0>(t) == a && upd::get<1>(t) == b && upd::get<2>(t) == c && upd::get<3>(t) == d && upd::get<4>(t).b == p.b, "get", "free get reads something else");
    auto t2 = t; // a copy is independent
    upd::set<1>(t2, b2);
    upd::set<3>(t2, std::array<i32, 2>{{d[1], d[0]}});
    EXPECT(Bytes(t.begin(), t.end()) == want, "layout", "a copy shares the bytes of the original");
    EXPECT(t2.template get<1>() == b2 && (t2.template get<3>() == std::array<i32, 2>{{d[1], d[0]}}) && t2.template get<2>() == c, "set", "free set stores something else");
    t2 = t;
    EXPECT(Bytes(t2.begin(), t2.end()) == want, "assign", "copy assignment gives something else");
    // sub-ranges of every extent
    auto v0 = t.template view<0, 5>();
    auto v1 = t.template view<1, 3>();
    auto v2 = upd::make_view<3, 2>(t);
    auto v3 = t.template view<2, 0>();
    auto v4 = t.template view<5, 0>();
    EXPECT(v0.begin() == t.begin() && v0.end() == t.end(), "range", "the view of everything");
    EXPECT(v1.begin() == t.begin() + 1 && v1.end() == t.begin() + 1 + 2 + 8 + 8, "range", "the view of the elements 1 to 3");
    EXPECT(v2.begin() == t.begin() + 11 && v2.end() == t.end(), "range", "the view of the last two elements");
    EXPECT(v3.begin() == v3.end() && v3.begin() == t.begin() + 3 && v4.begin() == t.end() && v4.end() == t.end(), "range", "empty views");
    v1.template set<0>(b2);
    EXPECT(t.template get<1>() == b2, "set", "setting through a view does not set the tuple");
    Bytes w2 = want;
    Bytes eb2;
    ref_encode(eb2, b2, s16, f);
    std::copy(eb2.begin(), eb2.end(), w2.begin() + 1);
    EXPECT(Bytes(t.begin(), t.end()) == w2, "set", "setting through a view changes other bytes");
    // assignment by part
    v1 = upd::make_tuple(upd::big_endian, upd::twos_complement, b, c, d);
    EXPECT(Bytes(t.begin(), t.end()) == want, "assign", "assigning to a part gives %s instead of %s", hex(t.begin(), t.size).c_str(), hex(want).c_str());
    // what functors of other signatures get
    const long sum = t.invoke([](u8 x, long long y, i64 z, const std::array<i32, 2> &, Pad) { return long(x + y + (z & 0xff)); });
    EXPECT(sum == long(a + b + (c & 0xff)), "invoke", "converted arguments");
    upd::tuple<E, S> none;
    int calls = 0;
    none.invoke([&] { calls++; });
    EXPECT(calls == 1 && none.begin() == none.end() && none.size == 0, "invoke", "empty tuple");
#if __cplusplus >= 201703L
    {
      auto [x0, x1, x2, x3, x4] = t;
      EXPECT(x0 == a && x1 == b && x2 == c && x3 == d && x4.a == p.a && x4.b == p.b, "get", "structured bindings give other values");
      const auto &[y0, y1, y2] = v1;
      EXPECT(y0 == b && y1 == c && y2 == d, "get", "structured bindings of a view give other values");
      static_assert(std::tuple_size<decltype(t)>::value == 5 && std::is_same<std::tuple_element_t<1, decltype(t)>, i16>::value);
      upd::tuple u{eh, sh, a, b, c};
      EXPECT((Bytes(u.begin(), u.end()) == Bytes(want.begin(), want.begin() + 11)), "layout", "deduced tuple");
    }
#endif
    st().evaluations += 12;
    st().state(hash_bytes(hash_str(fmt_name(f)), want.data(), want.size()));
    st().ev("forms compared");
  }
  (void)s8;
}
#endif

int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(opt().seed * 17 + 3);
  G = &g;
  const unsigned k = unsigned((opt().thorough ? 20 : 1) * opt().scale);
  (void)run_layout;
#ifdef FORMS
#define ONE(E, S) forms<upd::endianess::E, upd::signed_mode::S>();
  for (unsigned i = 0; i < k; i++) {
    FOR_ALL_FORMATS(ONE)
  }
#elif defined(ASSIGN)
  // to every format from several others, all of them met
#define TO(E1, S1, E2, S2) AssignTo<upd::endianess::E1, upd::signed_mode::S1, LIST>::from<upd::endianess::E2, upd::signed_mode::S2>(k);
  TO(LITTLE, SIGNED_MAGNITUDE, BIG, OFFSET_BINARY)
  TO(LITTLE, SIGNED_MAGNITUDE, LITTLE, TWOS_COMPLEMENT)
  TO(LITTLE, ONES_COMPLEMENT, BIG, SIGNED_MAGNITUDE)
  TO(LITTLE, ONES_COMPLEMENT, LITTLE, SIGNED_MAGNITUDE)
  TO(LITTLE, TWOS_COMPLEMENT, BIG, TWOS_COMPLEMENT)
  TO(LITTLE, TWOS_COMPLEMENT, LITTLE, OFFSET_BINARY)
  TO(LITTLE, OFFSET_BINARY, BIG, ONES_COMPLEMENT)
  TO(LITTLE, OFFSET_BINARY, LITTLE, ONES_COMPLEMENT)
  TO(BIG, SIGNED_MAGNITUDE, BIG, TWOS_COMPLEMENT)
  TO(BIG, SIGNED_MAGNITUDE, LITTLE, ONES_COMPLEMENT)
  TO(BIG, ONES_COMPLEMENT, BIG, OFFSET_BINARY)
  TO(BIG, ONES_COMPLEMENT, LITTLE, TWOS_COMPLEMENT)
  TO(BIG, TWOS_COMPLEMENT, BIG, ONES_COMPLEMENT)
  TO(BIG, TWOS_COMPLEMENT, LITTLE, SIGNED_MAGNITUDE)
  TO(BIG, OFFSET_BINARY, BIG, SIGNED_MAGNITUDE)
  TO(BIG, OFFSET_BINARY, LITTLE, OFFSET_BINARY)
#else
#ifdef NO_INVOKE
  const bool invoke = false;
#else
  const bool invoke = true;
#endif
#define ONE(E, S) run_layout(Make<upd::endianess::E, upd::signed_mode::S, LIST>::factory(), k, invoke);
  FOR_ALL_FORMATS(ONE)
#endif
  return finish();
}
