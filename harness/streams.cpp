// C25: the same transfers through every form of byte source and sink.
#include "common.hpp"
#include "types.hpp"

#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>

#include <upd/buffered_dispatcher.hpp>
#include <upd/keyring.hpp>

static Rng *G;

//---------------------------------------------------------------- sources

struct Pull { // what happened to a source
  const Bytes *data;
  std::size_t n;
  bool over;
  u8 next() {
    if (n >= data->size()) {
      over = true;
      return 0xee;
    }
    return (*data)[n++];
  }
};
static Pull *function_pull;
static u8 source_function() { return function_pull->next(); }

struct NoCopySource {
  Pull &p;
  explicit NoCopySource(Pull &p) : p(p) {}
  NoCopySource(const NoCopySource &) = delete;
  u8 operator()() { return p.next(); }
};
struct ConstSource {
  Pull &p;
  u8 operator()() const { return p.next(); }
};
struct ValueSource { // its state is in itself: a copy would not advance the original
  const Bytes *data;
  std::size_t at;
  u8 operator()() { return at < data->size() ? (*data)[at++] : (at++, 0xee); }
};

struct Counts {
  const Bytes *data;
  std::size_t at, derefs, incs;
  bool over;
};
struct SinglePass { // input iterator: every copy shares the position
  typedef std::input_iterator_tag iterator_category;
  typedef u8 value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const u8 *pointer;
  typedef u8 reference;
  Counts *c;
  struct Proxy {
    Counts *c;
    std::size_t at;
    u8 operator*() const {
      c->derefs++;
      if (at >= c->data->size()) {
        c->over = true;
        return 0xee;
      }
      return (*c->data)[at];
    }
  };
  u8 operator*() const { return *Proxy{c, c->at}; }
  SinglePass &operator++() {
    c->at++;
    c->incs++;
    return *this;
  }
  Proxy operator++(int) {
    Proxy p{c, c->at};
    ++*this;
    return p;
  }
  bool operator==(const SinglePass &o) const { return c == o.c; }
  bool operator!=(const SinglePass &o) const { return c != o.c; }
};

//! Calls op with every form of source of the given bytes, of which `used` must be taken
template<typename Op>
static void sources(const std::string &what, const Bytes &data, std::size_t used, const Op &op, int level) {
  const Bytes exact(data.begin(), data.begin() + long(used));
  auto begin = [&](const char *form) { st().current = what + " from " + form + " of " + hex(data); };
  auto done = [&](const char *form, std::size_t n, bool over) {
    EXPECT(n == used && !over, "consumed", "%s from %s: %zu bytes were taken instead of %zu", what.c_str(), form, n, used);
    st().evaluations++;
    st().ev(form);
    st().state(hash_add(hash_str(what), hash_str(form)));
  };
  {
    begin("a functor");
    Pull p{&data, 0, false};
    NoCopySource s(p);
    op(s);
    done("a functor", p.n, p.over);
  }
  {
    begin("a pointer");
    std::unique_ptr<u8[]> b(new u8[used]); // nothing may be read after the end
    std::copy(exact.begin(), exact.end(), b.get());
    const u8 *q = b.get();
    op(q);
    done("a pointer", std::size_t(q - b.get()) + used, false);
  }
  if (level < 1)
    return;
  {
    begin("a temporary functor");
    Pull p{&data, 0, false};
    op(NoCopySource(p));
    done("a temporary functor", p.n, p.over);
  }
  {
    begin("a const functor");
    Pull p{&data, 0, false};
    const ConstSource s{p};
    op(s);
    done("a const functor", p.n, p.over);
  }
  {
    begin("a functor with its own state");
    ValueSource s{&data, 0};
    op(s);
    done("a functor with its own state", s.at, false);
  }
  {
    begin("a lambda");
    Pull p{&data, 0, false};
    auto s = [&]() -> u8 { return p.next(); };
    op(s);
    done("a lambda", p.n, p.over);
  }
  {
    begin("a mutable temporary lambda");
    Pull p{&data, 0, false}, *q = &p;
    op([q]() mutable -> u8 { return q->next(); });
    done("a mutable temporary lambda", p.n, p.over);
  }
  {
    begin("a function");
    Pull p{&data, 0, false};
    function_pull = &p;
    op(source_function);
    done("a function", p.n, p.over);
  }
  {
    begin("a function pointer");
    Pull p{&data, 0, false};
    function_pull = &p;
    u8 (*f)() = &source_function;
    op(f);
    done("a function pointer", p.n, p.over);
  }
  {
    begin("a std::function");
    Pull p{&data, 0, false};
    std::function<u8()> f = [&] { return p.next(); };
    op(f);
    done("a std::function", p.n, p.over);
  }
  {
    begin("an array");
    u8 a[512] = {};
    if (used <= sizeof a) {
      std::copy(exact.begin(), exact.end(), a);
      op(a);
      done("an array", used, false);
    }
  }
  {
    begin("a mutable pointer");
    Bytes b = exact;
    b.shrink_to_fit();
    op(b.data());
    done("a mutable pointer", used, b != exact);
  }
  {
    begin("a vector iterator");
    op(exact.begin());
    done("a vector iterator", used, false);
  }
  {
    begin("a list iterator");
    std::list<u8> l(exact.begin(), exact.end());
    l.push_back(0x77);
    auto it = l.begin();
    op(it);
    done("a list iterator", used, it != l.begin());
  }
  {
    begin("a deque iterator");
    const std::deque<u8> l(exact.begin(), exact.end());
    op(l.begin());
    done("a deque iterator", used, false);
  }
  {
    begin("a forward_list iterator");
    const std::forward_list<u8> l(exact.begin(), exact.end());
    op(l.cbegin());
    done("a forward_list iterator", used, false);
  }
  {
    begin("a reverse iterator");
    const Bytes r(exact.rbegin(), exact.rend());
    op(r.rbegin());
    done("a reverse iterator", used, false);
  }
  {
    begin("a single-pass iterator");
    Counts c{&data, 0, 0, 0, false};
    op(SinglePass{&c});
    done("a single-pass iterator", c.incs, c.over || c.derefs != used || c.at != used);
  }
  {
    begin("an istreambuf_iterator");
    std::istringstream in(std::string(data.begin(), data.end()));
    op(std::istreambuf_iterator<char>(in));
    const std::size_t left = std::size_t(in.rdbuf()->in_avail() < 0 ? 0 : in.rdbuf()->in_avail());
    done("an istreambuf_iterator", data.size() - left, false);
  }
  {
    begin("an istream_iterator");
    std::istringstream in(std::string(data.begin(), data.end()));
    in >> std::noskipws;
    op(std::istream_iterator<char>(in)); // reads one ahead by itself
    const std::size_t left = std::size_t(in.rdbuf()->in_avail() < 0 ? 0 : in.rdbuf()->in_avail());
    done("an istream_iterator", data.size() - left - 1, false);
  }
}

//---------------------------------------------------------------- sinks

static Bytes *function_sink;
static void sink_function(u8 b) { function_sink->push_back(b); }

struct NoCopySink {
  Bytes &b;
  explicit NoCopySink(Bytes &b) : b(b) {}
  NoCopySink(const NoCopySink &) = delete;
  void operator()(u8 x) { b.push_back(x); }
};
struct ConstSink {
  Bytes *b;
  void operator()(u8 x) const { b->push_back(x); }
};
struct ValueSink {
  std::size_t n;
  u8 at[600];
  void operator()(u8 x) {
    if (n < sizeof at)
      at[n] = x;
    n++;
  }
};
struct SinkCounts {
  Bytes out;
  std::size_t incs;
};
struct CountingSink { // output iterator, every copy shares the position
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type;
  typedef void difference_type;
  typedef void pointer;
  typedef void reference;
  SinkCounts *c;
  struct Proxy {
    SinkCounts *c;
    Proxy &operator=(u8 x) {
      c->out.push_back(x);
      return *this;
    }
  };
  Proxy operator*() const { return Proxy{c}; }
  CountingSink &operator++() {
    c->incs++;
    return *this;
  }
  CountingSink operator++(int) {
    CountingSink k = *this;
    ++*this;
    return k;
  }
};

template<typename Op>
static void sinks(const std::string &what, const Bytes &want, const Op &op, int level) {
  auto begin = [&](const char *form) { st().current = what + " to " + form + ", " + hex(want) + " expected"; };
  auto done = [&](const char *form, const Bytes &got) {
    EXPECT(got == want, "output", "%s to %s: %s was written instead of %s", what.c_str(), form, hex(got).c_str(), hex(want).c_str());
    st().evaluations++;
    st().ev(form);
    st().state(hash_add(hash_str(what), hash_str(form)));
  };
  {
    begin("a functor");
    Bytes b;
    NoCopySink s(b);
    op(s);
    done("a functor (sink)", b);
  }
  {
    begin("a back_inserter");
    Bytes b;
    op(std::back_inserter(b));
    done("a back_inserter", b);
  }
  if (level < 1)
    return;
  {
    begin("a temporary functor");
    Bytes b;
    op(NoCopySink(b));
    done("a temporary functor (sink)", b);
  }
  {
    begin("a const functor");
    Bytes b;
    const ConstSink s{&b};
    op(s);
    done("a const functor (sink)", b);
  }
  {
    begin("a functor with its own state");
    ValueSink s{0, {}};
    op(s);
    done("a functor with its own state (sink)", Bytes(s.at, s.at + (s.n < sizeof s.at ? s.n : sizeof s.at)));
  }
  {
    begin("a lambda");
    Bytes b;
    auto s = [&](u8 x) { b.push_back(x); };
    op(s);
    done("a lambda (sink)", b);
  }
  {
    begin("a mutable temporary lambda");
    Bytes b, *q = &b;
    op([q](u8 x) mutable { q->push_back(x); });
    done("a mutable temporary lambda (sink)", b);
  }
  {
    begin("a function");
    Bytes b;
    function_sink = &b;
    op(sink_function);
    done("a function (sink)", b);
  }
  {
    begin("a std::function");
    Bytes b;
    std::function<void(u8)> f = [&](u8 x) { b.push_back(x); };
    op(f);
    done("a std::function (sink)", b);
  }
  {
    begin("a pointer");
    Guarded m(want.size());
    u8 *p = m.data();
    op(p);
    EXPECT(m.intact() && p == m.data(), "output", "%s to a pointer writes around the bytes", what.c_str());
    done("a pointer (sink)", Bytes(m.data(), m.data() + want.size()));
  }
  {
    begin("an exact block");
    std::unique_ptr<u8[]> p(new u8[want.size()]);
    op(p.get());
    done("an exact block (sink)", Bytes(p.get(), p.get() + want.size()));
  }
  {
    begin("an array");
    u8 a[512];
    std::memset(a, 0x3b, sizeof a);
    op(a);
    if (want.size() < sizeof a)
      EXPECT(a[want.size()] == 0x3b, "output", "%s writes too many bytes to an array", what.c_str());
    done("an array (sink)", Bytes(a, a + want.size()));
  }
  {
    begin("a vector iterator");
    Bytes b(want.size());
    op(b.begin());
    done("a vector iterator (sink)", b);
  }
  {
    begin("a list iterator");
    std::list<u8> l(want.size() + 1, 0x3b);
    op(l.begin());
    EXPECT(l.back() == 0x3b, "output", "%s writes too many bytes to a list", what.c_str());
    l.pop_back();
    done("a list iterator (sink)", Bytes(l.begin(), l.end()));
  }
  {
    begin("a deque iterator");
    std::deque<u8> l(want.size());
    op(l.begin());
    done("a deque iterator (sink)", Bytes(l.begin(), l.end()));
  }
  {
    begin("a list inserter");
    std::list<u8> l(1, 0x3b);
    op(std::inserter(l, l.begin()));
    l.pop_back();
    done("a list inserter", Bytes(l.begin(), l.end()));
  }
  {
    begin("a front_inserter");
    std::deque<u8> l;
    op(std::front_inserter(l));
    done("a front_inserter", Bytes(l.rbegin(), l.rend()));
  }
  {
    begin("a counting iterator");
    SinkCounts c{{}, 0};
    op(CountingSink{&c});
    EXPECT(c.incs == want.size(), "consumed", "%s advances an output iterator %zu times for %zu bytes", what.c_str(), c.incs, want.size());
    done("a counting iterator (sink)", c.out);
  }
  {
    begin("an ostreambuf_iterator");
    std::ostringstream o;
    op(std::ostreambuf_iterator<char>(o));
    const std::string s = o.str();
    done("an ostreambuf_iterator", Bytes(s.begin(), s.end()));
  }
  {
    begin("an ostream_iterator");
    std::ostringstream o;
    op(std::ostream_iterator<u8>(o));
    const std::string s = o.str();
    done("an ostream_iterator", Bytes(s.begin(), s.end()));
  }
}

//---------------------------------------------------------------- what is used through them

static Flat last_args;
static int last_fn, calls;
static Flat next_ret;

template<typename R>
static R give() {
  const i128 *p = next_ret.data();
  return Tr<R>::build(p);
}
static u8 f0(u8 x) {
  calls++, last_fn = 0, last_args = {x};
  return give<u8>();
}
static i32 f1(i16 x, u8 y) {
  calls++, last_fn = 1, last_args = {x, y};
  return give<i32>();
}
static void f2(i8 x) { calls++, last_fn = 2, last_args = {x}; }
static std::array<u16, 20> f3(bool x, i64 y) {
  calls++, last_fn = 3, last_args = {x, y};
  return give<std::array<u16, 20>>();
}
static void f4() { calls++, last_fn = 4, last_args = {}; }
static Pad f5(Pad p, u8 x) {
  calls++, last_fn = 5, last_args = {p.a, p.b, x};
  return give<Pad>();
}
#define H(F) upd::unevaluated<decltype(&F), &F>
#ifndef END
#define END BIG
#endif
#ifndef SGN
#define SGN ONES_COMPLEMENT
#endif
typedef upd::keyring<upd::endianess::END, upd::signed_mode::SGN, H(f0), H(f1), H(f2), H(f3), H(f4), H(f5)> KR;
static const Fmt FMT = fmt_of<upd::endianess::END, upd::signed_mode::SGN>();
static void take20(std::array<u8, 40>) {}
static void take_none(u8) {}
typedef upd::keyring<upd::endianess::LITTLE, upd::signed_mode::TWOS_COMPLEMENT, H(take_none), H(take20)> Target;

struct Desc {
  std::vector<Scalar> args, ret;
};
static std::vector<Desc> descs() {
  std::vector<Desc> d(6);
  auto s = [](unsigned n, bool sg) { return Scalar{n, sg, false}; };
  d[0] = {{s(1, false)}, {s(1, false)}};
  d[1] = {{s(2, true), s(1, false)}, {s(4, true)}};
  d[2] = {{s(1, true)}, {}};
  d[3] = {{Scalar{1, false, true}, s(8, true)}, std::vector<Scalar>(20, s(2, false))};
  d[5] = {{s(1, false), s(4, true), s(1, false)}, {s(1, false), s(4, true)}};
  return d;
}

struct Case { // one call
  int fn;
  Flat args, ret;
  Bytes req, res;
};
static Case make_case(int fn) {
  static const std::vector<Desc> d = descs();
  Case c;
  c.fn = fn;
  c.args = gen_values(*G, d[std::size_t(fn)].args, FMT);
  c.ret = gen_values(*G, d[std::size_t(fn)].ret, FMT);
  c.req = {u8(fn)};
  const Bytes a = ref_encode(c.args, d[std::size_t(fn)].args, FMT);
  c.req.insert(c.req.end(), a.begin(), a.end());
  c.res = ref_encode(c.ret, d[std::size_t(fn)].ret, FMT);
  return c;
}
static const Case *current;
static void prepare() {
  next_ret = current->ret;
  calls = 0;
  last_fn = -1;
}
static void judge_call(const char *what) {
  EXPECT(calls == 1 && last_fn == current->fn && last_args == current->args, "invoke", "%s: callback %d was invoked (%d invocations) with %s instead of %d with %s",
         what, last_fn, calls, dec(last_args).c_str(), current->fn, dec(current->args).c_str());
}
static Bytes with_extra(const Bytes &b) {
  Bytes e = b;
  for (int i = 0; i < 7; i++)
    e.push_back(u8(0xd0 + i));
  return e;
}

// --- keys and messages

template<typename Key, typename R>
struct ReadKey {
  int form;
  template<typename Src>
  void operator()(Src &&src) const {
    const Key ck{};
    Key k{};
    Flat got;
    if (form == 0)
      got = flat_of<R>(ck.read_from(std::forward<Src>(src)));
    else if (form == 1)
      got = flat_of<R>(ck << std::forward<Src>(src));
    else if (form == 2)
      got = flat_of<R>(k.read_from(std::forward<Src>(src)));
    else
      got = flat_of<R>(k << std::forward<Src>(src));
    EXPECT(got == current->ret, "value", "%s gives %s instead of %s", st().current.c_str(), dec(got).c_str(), dec(current->ret).c_str());
  }
};
template<typename Key>
struct ReadVoidKey {
  int form;
  template<typename Src>
  void operator()(Src &&src) const {
    const Key ck{};
    if (form == 0)
      ck.read_from(std::forward<Src>(src));
    else
      ck << std::forward<Src>(src);
  }
};
template<typename M>
struct WriteMessage {
  M &m;
  int form;
  template<typename Dst>
  void operator()(Dst &&dst) const {
    const M &c = m;
    if (form == 0)
      c.write_to(std::forward<Dst>(dst));
    else if (form == 1)
      c >> std::forward<Dst>(dst);
    else if (form == 2)
      m.write_to(std::forward<Dst>(dst));
    else
      m >> std::forward<Dst>(dst);
  }
};
template<typename M>
static void message(const std::string &what, M m, const Case &c) {
  for (int form = 0; form < 4; form++)
    sinks(what + strf(" message, form %d", form), c.req, WriteMessage<M>{m, form}, form < 2 || G->chance(1, 4));
}

// --- actions and dispatchers: op(src, dst)

template<typename P, typename Dst>
struct FromSource { // the sink is chosen
  P &p;
  Dst &dst;
  template<typename Src>
  void operator()(Src &&src) const {
    p.run(std::forward<Src>(src), dst);
  }
};
template<typename P, typename Src>
struct ToSink { // the source is chosen
  P &p;
  Src &src;
  template<typename Dst>
  void operator()(Dst &&dst) const {
    p.run(src, std::forward<Dst>(dst));
  }
};
//! All of the sources with two sorts of sinks, and the reverse
template<typename P>
static void process(const std::string &what, P p, const Bytes &input, std::size_t used, const Bytes &output) {
  {
    Bytes out;
    ConstSink s{&out};
    struct Reset {
      P &p;
      Bytes &out;
    };
    // a callable as sink: judged all together
    std::size_t before = st().evaluations;
    sources(what + ", to a callable", input, used, FromSource<P, ConstSink>{p, s}, 1);
    before = st().evaluations - before;
    Bytes want;
    for (std::size_t i = 0; i < before; i++)
      want.insert(want.end(), output.begin(), output.end());
    EXPECT(out == want, "output", "%s: %zu runs wrote %zu bytes instead of %zu each", what.c_str(), before, out.size(), output.size());
  }
  {
    Bytes out;
    auto s = std::back_inserter(out);
    std::size_t before = st().evaluations;
    sources(what + ", to an iterator", input, used, FromSource<P, decltype(s)>{p, s}, 1);
    before = st().evaluations - before;
    Bytes want;
    for (std::size_t i = 0; i < before; i++)
      want.insert(want.end(), output.begin(), output.end());
    EXPECT(out == want, "output", "%s: %zu runs wrote %zu bytes instead of %zu each", what.c_str(), before, out.size(), output.size());
  }
  {
    const u8 *q = input.data();
    sinks(what + ", from an iterator", output, ToSink<P, const u8 *>{p, q}, 1);
  }
  {
    Pull pull{&input, 0, false};
    struct Again { // starts afresh for every run
      Pull &pull;
      std::size_t used;
      u8 operator()() const {
        if (pull.n == used)
          pull.n = 0;
        return pull.next();
      }
    } src{pull, used};
    sinks(what + ", from a callable", output, ToSink<P, Again>{p, src}, 1);
  }
}

template<typename A>
struct RunAction {
  const A &a;
  template<typename Src, typename Dst>
  void run(Src &&src, Dst &&dst) {
    prepare();
    a(std::forward<Src>(src), std::forward<Dst>(dst));
    judge_call(st().current.c_str());
  }
};
template<typename A>
struct RunActionAlone {
  const A &a;
  template<typename Src>
  void operator()(Src &&src) const {
    prepare();
    a(std::forward<Src>(src));
    judge_call(st().current.c_str());
  }
};
template<typename D>
struct RunPlain {
  D &d;
  template<typename Src, typename Dst>
  void run(Src &&src, Dst &&dst) {
    prepare();
    const unsigned long index = d(std::forward<Src>(src), std::forward<Dst>(dst));
    EXPECT(int(index) == current->fn, "value", "%s returns index %lu", st().current.c_str(), index);
    judge_call(st().current.c_str());
  }
};
template<typename D>
struct RunBuffered {
  D &d;
  template<typename Src, typename Dst>
  void run(Src &&src, Dst &&dst) {
    prepare();
    const upd::packet_status s = d(std::forward<Src>(src), std::forward<Dst>(dst));
    EXPECT(s == upd::packet_status::RESOLVED_PACKET && !d.is_loaded(), "value", "%s ends with status %d, loaded %d", st().current.c_str(), int(s), d.is_loaded());
    judge_call(st().current.c_str());
  }
};
template<typename D>
struct ReadBuffered {
  D &d;
  int form;
  template<typename Src>
  void operator()(Src &&src) const {
    prepare();
    upd::packet_status s;
    if (form == 0)
      s = d.read_from(std::forward<Src>(src));
    else
      s = d << std::forward<Src>(src);
    EXPECT(s == upd::packet_status::RESOLVED_PACKET && d.is_loaded() == !current->res.empty(), "value", "%s ends with status %d, loaded %d", st().current.c_str(), int(s), d.is_loaded());
    judge_call(st().current.c_str());
    Bytes out;
    while (d.is_loaded())
      out.push_back(d.get());
    EXPECT(out == current->res, "output", "%s leaves %s instead of %s", st().current.c_str(), hex(out).c_str(), hex(current->res).c_str());
  }
};
template<typename D>
static void feed(D &d) {
  const u8 *p = current->req.data();
  prepare();
  for (std::size_t i = 0; i < current->req.size(); i++)
    d.put(p[i]);
}
template<typename D>
struct WriteBuffered {
  D &d;
  int form;
  template<typename Dst>
  void operator()(Dst &&dst) const {
    feed(d);
    if (form == 0)
      d.write_to(std::forward<Dst>(dst));
    else
      d >> std::forward<Dst>(dst);
    EXPECT(!d.is_loaded(), "value", "%s leaves bytes", st().current.c_str());
  }
};
template<typename D>
struct Reply {
  D &d;
  template<typename Dst>
  void operator()(Dst &&dst) const {
    feed(d);
    const auto k = Target{}.get(H(take20){});
    EXPECT(d.reply(std::forward<Dst>(dst), k), "value", "%s: reply fails", st().current.c_str());
  }
};

template<typename D>
struct Custom : upd::buffered_dispatcher<Custom<D>, D> {
  u8 in[64], out[64];
  u8 *ibuf_begin() { return in; }
  u8 *obuf_begin() { return out; }
};

template<typename D>
static void buffered(const std::string &name, const Case &c) {
  std::unique_ptr<D> d(new D());
  const Bytes in = with_extra(c.req);
#ifdef PART_B
  for (int form = 0; form < 2; form++) {
    sources(name + (form ? " <<" : ".read_from"), in, c.req.size(), ReadBuffered<D>{*d, form}, 1);
    sinks(name + (form ? " >>" : ".write_to"), c.res, WriteBuffered<D>{*d, form}, 1);
  }
  if (!c.res.empty()) {
    Bytes sent{1};
    sent.insert(sent.end(), c.res.begin(), c.res.end());
    sent.resize(41, 0);
    sinks(name + ".reply", sent, Reply<D>{*d}, 1);
  }
#else
  process(name, RunBuffered<D>{*d}, in, c.req.size(), c.res);
#endif
}

template<typename H_>
struct HandleValue;
template<typename F, F V>
struct HandleValue<upd::unevaluated<F, V>> {
  static F value() { return V; }
};

template<typename Hd, typename R>
static void one(const Case &c, Hd h) {
  const auto key = KR{}.get(h);
  typedef typename std::remove_cv<decltype(key)>::type Key;
  const Bytes in = with_extra(c.req), args(in.begin() + 1, in.end()), res = with_extra(c.res);
  (void)args, (void)res;
#ifdef PART_K
  for (int form = 0; form < 4; form++)
    sources(strf("key %d, form %d", c.fn, form), res, c.res.size(), ReadKey<Key, R>{form}, 1);
  const auto eh = upd::endianess_h<upd::endianess::END>{};
  const auto sh = upd::signed_mode_h<upd::signed_mode::SGN>{};
  const auto fp = HandleValue<Hd>::value();
  const upd::action a{fp, eh, sh};
  const upd::no_storage_action n{h, eh, sh};
  process(strf("action %d", c.fn), RunAction<upd::action>{a}, args, c.req.size() - 1, c.res);
  process(strf("no_storage_action %d", c.fn), RunAction<upd::no_storage_action>{n}, args, c.req.size() - 1, c.res);
  sources(strf("action %d alone", c.fn), args, c.req.size() - 1, RunActionAlone<upd::action>{a}, 1);
#endif
  (void)h;
}

int main(int argc, char **argv) {
  init(argc, argv);
  Rng g(opt().seed * 57 + 9);
  G = &g;
  typedef upd::dispatcher<KR, upd::action_features::ANY> DA;
  typedef upd::dispatcher<KR, upd::action_features::WEAK_REFERENCE> DW;
  const unsigned rounds = unsigned((opt().thorough ? 40 : 2) * opt().scale);
  for (unsigned r = 0; r < rounds; r++) {
    for (int fn = 0; fn < 6; fn++) {
      const Case c = make_case(fn);
      current = &c;
      if (st().wants_sample())
        st().sample(strf("call %d%s: request %s, response %s", fn, dec(c.args).c_str(), hex(c.req).c_str(), hex(c.res).c_str()));
#ifdef PART_K
      switch (fn) {
      case 0:
        one<H(f0), u8>(c, H(f0){});
        message("key 0", KR{}.get(H(f0){})(u8(c.args[0])), c);
        break;
      case 1:
        one<H(f1), i32>(c, H(f1){});
        message("key 1", KR{}.get(H(f1){})(i16(c.args[0]), u8(c.args[1])), c);
        break;
      case 2:
        for (int form = 0; form < 2; form++)
          sources("key 2", with_extra(c.res), 0, ReadVoidKey<decltype(KR{}.get(H(f2){}))>{form}, 0);
        message("key 2", KR{}.get(H(f2){})(i8(c.args[0])), c);
        break;
      case 3:
        one<H(f3), std::array<u16, 20>>(c, H(f3){});
        message("key 3", KR{}.get(H(f3){})(c.args[0] != 0, i64(c.args[1])), c);
        break;
      case 4:
        message("key 4", KR{}.get(H(f4){})(), c);
        break;
      default:
        one<H(f5), Pad>(c, H(f5){});
        message("key 5", KR{}.get(H(f5){})(Pad{u8(c.args[0]), i32(c.args[1])}, u8(c.args[2])), c);
      }
#endif
#ifdef PART_P
      const Bytes in = with_extra(c.req);
      {
        DA d;
        process("dispatcher/any", RunPlain<DA>{d}, in, c.req.size(), c.res);
      }
      {
        DW d;
        process("dispatcher/weak", RunPlain<DW>{d}, in, c.req.size(), c.res);
      }
#endif
#if defined(PART_Q) || defined(PART_B)
      buffered<upd::single_buffered_dispatcher<DW>>("single_buffered/weak", c);
      buffered<upd::double_buffered_dispatcher<DA>>("double_buffered/any", c);
      buffered<Custom<DW>>("custom/weak", c);
#endif
    }
  }
  return finish();
}
