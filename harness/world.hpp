// Keyrings of logged callbacks, and uniform access to their keys and to every kind of dispatcher made from them.
//
// The part which uses the library is a thin layer of adapters; what judges (the model of a dispatcher in model.hpp and
// the drivers) only handles bytes and numbers.
#pragma once

#include "common.hpp"
#include "types.hpp"

#include <memory>
#include <new>
#include <tuple>

#include <upd/buffered_dispatcher.hpp>
#include <upd/keyring.hpp>
#include <upd/unevaluated.hpp>

//---------------------------------------------------------------- what callbacks do

struct CallRec {
  int id;
  int variant; // which function or functor stands for the callback
  Flat args, ret;
  bool threw;
};

struct CallbackError {};
struct SourceError {};
struct SinkError {};
struct Overrun {}; // a source was asked for more bytes than it has
struct Runaway {}; // a sink was given an absurd number of bytes

struct CallWorld {
  std::vector<CallRec> log;
  Rng rng;
  Fmt fmt;
  int throw_in; // the callback throws at this invocation from now (0: the next one), never when negative
  CallWorld() : rng(1), throw_in(-1) {}
};
inline CallWorld &cw() {
  static thread_local CallWorld w;
  return w;
}

#ifdef THREADED
#include <thread>
// What user code does while the library is in the middle of something: nothing, yielding, or using other objects
struct Disturbance {
  u64 (*nested)(u64 seed) = nullptr;
  std::vector<std::pair<u64, u64>> outcomes; // seed, what was observed
  unsigned out_of = 0;
  int depth = 0;
  u64 yields = 0, nestings = 0;
  Rng rng;
};
inline Disturbance &disturbance() {
  static thread_local Disturbance d;
  return d;
}
inline void disturb() {
  Disturbance &d = disturbance();
  if (d.rng.chance(1, 64)) {
    d.yields++;
    std::this_thread::yield();
  }
  if (d.nested && d.depth < 3 && d.rng.chance(1, d.out_of)) {
    d.depth++;
    d.nestings++;
    CallWorld saved = std::move(cw());
    const Transcript transcribed = transcript();
    const std::string current = st().current;
    const u64 seed = d.rng.next();
    const u64 h = d.nested(seed);
    if (d.outcomes.size() < 200)
      d.outcomes.emplace_back(seed, h);
    cw() = std::move(saved);
    transcript() = transcribed;
    st().current = current;
    d.depth--;
  }
}
#else
inline void disturb() {}
#endif

//! The arguments are still what they were
inline void same_args(const CallRec &r, const Flat &again) {
  if (again != r.args)
    violation("difference", strf("the arguments of callback %d became %s during its invocation, instead of %s", r.id, dec(again).c_str(), dec(r.args).c_str()));
}

inline void log_call(CallRec &r) {
  CallWorld &w = cw();
  r.threw = w.throw_in == 0;
  for (auto &x : r.args)
    must_be_defined(&x, sizeof x);
  tr(u64(r.id) * 1000 + u64(r.variant));
  tr(r.args);
  if (w.throw_in >= 0)
    w.throw_in--;
  w.log.push_back(r);
  if (r.threw)
    throw CallbackError{};
}

template<typename R>
struct Give { // by value
  static R give(CallRec &r) {
    r.ret = gen_values(cw().rng, scalars_of<R>(), cw().fmt);
    consistent<R>(r.ret);
    log_call(r);
    const i128 *p = r.ret.data();
    return Tr<R>::build(p);
  }
};
template<>
struct Give<void> {
  static void give(CallRec &r) { log_call(r); }
};
template<typename T>
struct Give<T &> { // reference to something which outlives the call
  typedef typename Bare<T>::type V;
  static T &give(CallRec &r) {
    static thread_local V value;
    value = Give<V>::give(r);
    return value;
  }
};

template<typename T>
struct Ident {}; // signature of a callback which returns a reference to its own argument

template<int Id, int V, typename Sig>
struct Fn;
template<int Id, int V, typename R, typename... Args>
struct Fn<Id, V, R(Args...)> {
  static R call(Args... args) {
    USER;
    CallRec r{Id, V, Flat(), Flat(), false};
    const int d[] = {0, (Tr<typename Bare<Args>::type>::flat(r.args, args), 0)...};
    (void)d;
#ifdef THREADED
    disturb();
    Flat again;
    const int d2[] = {0, (Tr<typename Bare<Args>::type>::flat(again, args), 0)...};
    (void)d2;
    same_args(r, again);
#endif
    return Give<R>::give(r);
  }
};
template<int Id, int V, typename T>
struct Fn<Id, V, Ident<T>> {
  static const T &call(const T &x) {
    USER;
    CallRec r{Id, V, flat_of<T>(x), flat_of<T>(x), false};
    disturb();
    same_args(r, flat_of<T>(x));
    log_call(r);
    return x;
  }
};

// Light callbacks for the large keyrings
template<typename Sig>
struct Lite {};
inline i128 lite_call(int id, int variant, const i128 *arg, unsigned ret_size) {
  USER;
  CallRec r{id, variant, Flat(), Flat(), false};
  if (arg)
    r.args.push_back(*arg);
  if (ret_size)
    r.ret.push_back(gen_value(cw().rng, Scalar{ret_size, false, false}, cw().fmt));
  log_call(r);
  return ret_size ? r.ret[0] : 0;
}
template<int Id, int V>
struct Fn<Id, V, Lite<u8(u8)>> {
  static u8 call(u8 x) {
    const i128 a = x;
    return u8(lite_call(Id, V, &a, 1));
  }
};
template<int Id, int V>
struct Fn<Id, V, Lite<void(i16)>> {
  static void call(i16 x) {
    const i128 a = x;
    lite_call(Id, V, &a, 0);
  }
};
template<int Id, int V>
struct Fn<Id, V, Lite<u16()>> {
  static u16 call() { return u16(lite_call(Id, V, nullptr, 2)); }
};

//! Stateful replacement: variant is a number chosen at run time
template<int Id, typename Sig>
struct Functor;
template<int Id, typename R, typename... Args>
struct Functor<Id, R(Args...)> {
  int variant;
  R operator()(Args... args) {
    USER;
    CallRec r{Id, variant, Flat(), Flat(), false};
    const int d[] = {0, (Tr<typename Bare<Args>::type>::flat(r.args, args), 0)...};
    (void)d;
#ifdef THREADED
    disturb();
    Flat again;
    const int d2[] = {0, (Tr<typename Bare<Args>::type>::flat(again, args), 0)...};
    (void)d2;
    same_args(r, again);
#endif
    return Give<R>::give(r);
  }
};
template<int Id, typename T>
struct Functor<Id, Ident<T>> {
  int variant;
  const T &operator()(const T &x) {
    USER;
    CallRec r{Id, variant, flat_of<T>(x), flat_of<T>(x), false};
    disturb();
    same_args(r, flat_of<T>(x));
    log_call(r);
    return x;
  }
};

template<int Id, typename Sig>
struct Functor<Id, Lite<Sig>> : Functor<Id, Sig> {
  explicit Functor(int v) : Functor<Id, Sig>{v} {}
};

template<typename Sig>
struct SigOf {
  typedef Sig type;
};
template<typename Sig>
struct SigOf<Lite<Sig>> {
  typedef Sig type;
};
template<typename T>
struct SigOf<Ident<T>> {
  typedef const T &type(const T &);
};

template<typename T>
struct IsIdent : std::false_type {};
template<typename T>
struct IsIdent<Ident<T>> : std::true_type {};

//---------------------------------------------------------------- byte streams

struct Src {
  const u8 *p;
  std::size_t n, pulled;
  long throw_at;
  Src(const u8 *p, std::size_t n, long throw_at = -1) : p(p), n(n), pulled(0), throw_at(throw_at) {}
  explicit Src(const Bytes &b) : p(b.data()), n(b.size()), pulled(0), throw_at(-1) {}
  u8 operator()() {
    USER;
    disturb();
    if (long(pulled) == throw_at) {
      throw_at = -1;
      throw SourceError{};
    }
    if (pulled >= n)
      throw Overrun{};
    return p[pulled++];
  }
};
struct Dst {
  Bytes out;
  long throw_at; // throws once it was handed this many bytes
  explicit Dst(long throw_at = -1) : throw_at(throw_at) {}
  void operator()(u8 b) {
    USER;
    disturb();
    must_be_defined(&b, 1);
    tr(u64(b));
    out.push_back(b);
    if (out.size() > 300000)
      throw Runaway{};
    if (long(out.size()) == throw_at) {
      throw_at = -1;
      throw SinkError{};
    }
  }
};

//---------------------------------------------------------------- descriptions

struct FnDesc {
  std::string sig;
  std::vector<Scalar> args, ret;
  bool is_void, is_ident;
  std::size_t arg_bytes, ret_bytes;
  void (*norm_args)(Flat &);
  Flat (*decode_args)(const u8 *, Fmt);
  Flat (*decode_ret)(const u8 *, Fmt);
  // through the key
  Bytes (*request)(const Flat &, int form);
  std::size_t payload_length;
  u64 key_index;
  Flat (*decode)(Src &);
  void (*hook)(Src &, int form, int times);
};

struct WorldDesc {
  std::string name;
  Fmt fmt;
  unsigned index_size;
  u64 advertised_size;
  std::vector<FnDesc> fns;
  std::size_t max_request() const {
    std::size_t m = 0;
    for (auto &f : fns)
      m = f.arg_bytes > m ? f.arg_bytes : m;
    return m + index_size;
  }
  std::size_t max_response() const {
    std::size_t m = 0;
    for (auto &f : fns)
      m = f.ret_bytes > m ? f.ret_bytes : m;
    return m;
  }
  Scalar index_scalar() const { return Scalar{index_size, false, false}; }
};

template<typename... Ts>
struct TypesDesc { // of values of these types in a row
  static std::vector<Scalar> scalars() {
    std::vector<Scalar> l;
    const int d[] = {0, (Tr<Ts>::scalars(l), 0)...};
    (void)d;
    return l;
  }
  template<typename T>
  static void norm1(Flat &out, const i128 *&p) {
    Flat one(p, p + scalars_of<T>().size());
    p += one.size();
    consistent<T>(one);
    out.insert(out.end(), one.begin(), one.end());
  }
  static void norm(Flat &f) {
    Flat out;
    const i128 *p = f.data();
    const int d[] = {0, (norm1<Ts>(out, p), 0)...};
    (void)d, (void)p;
    f = out;
  }
  template<typename T>
  static void decode1(Flat &out, const u8 *&p, Fmt f) {
    Flat one = decoded_as<T>(p, f);
    p += ref_size(scalars_of<T>());
    out.insert(out.end(), one.begin(), one.end());
  }
  static Flat decode(const u8 *p, Fmt f) {
    Flat out;
    const int d[] = {0, (decode1<Ts>(out, p, f), 0)...};
    (void)d, (void)p;
    return out;
  }
};
template<>
struct TypesDesc<void> {
  static std::vector<Scalar> scalars() { return {}; }
  static void norm(Flat &) {}
  static Flat decode(const u8 *, Fmt) { return {}; }
};

//! Arguments built out of numbers (arrays cannot be built by a function)
template<typename T>
struct Holder {
  T v;
  explicit Holder(const i128 *&p) : v(Tr<T>::build(p)) {}
};
template<typename T, std::size_t N>
struct Holder<T[N]> {
  T v[N];
  explicit Holder(const i128 *&p) {
    for (auto &e : v)
      e = Tr<T>::build(p);
  }
};

template<std::size_t...>
struct Seq {};
template<std::size_t N, std::size_t... Is>
struct MakeSeq : MakeSeq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct MakeSeq<0, Is...> {
  typedef Seq<Is...> type;
};

template<typename K, typename R>
struct DecodeWith {
  static auto read(Src &src) -> decltype(K{}.read_from(src)) {
    LIB("key::read_from");
    return K{}.read_from(src);
  }
  static Flat decode(Src &src) {
    dirty_stack();
    const Flat f = flat_of<typename Bare<R>::type>(read(src));
    must_be_defined(f.data(), f.size() * sizeof(i128));
    tr(f);
    return f;
  }
};
template<typename K>
struct DecodeWith<K, void> {
  static Flat decode(Src &src) {
    LIB("key::read_from");
    K{}.read_from(src);
    return {};
  }
};

// Hooks take what the remote callback returned, by value or by reference
template<int Id, typename R>
struct HookFn {
  typedef typename Bare<R>::type V;
  static void record(int variant, const V &x) {
    USER;
    CallRec r{Id, variant, flat_of<V>(x), Flat(), false};
    log_call(r);
  }
  static void call(const V &x) { record(0, x); }
  static u16 by_value(V x) { // what a hook returns does not matter
    record(0, x);
    return 0x1234;
  }
  struct Ftor {
    int variant;
    int *calls; // state which must be kept
    void operator()(const V &x) {
      record(variant, x);
      ++*calls;
    }
  };
};
template<int Id>
struct HookFn<Id, void> {
  static void record(int variant) {
    USER;
    CallRec r{Id, variant, Flat(), Flat(), false};
    log_call(r);
  }
  static void call() { record(0); }
  static u16 by_value() {
    record(0);
    return 0x1234;
  }
  struct Ftor {
    int variant;
    int *calls;
    void operator()() {
      record(variant);
      ++*calls;
    }
  };
};
enum { HOOK_FORMS = 7 };

// (the key is passed rather than the keyring: the names of the latter's instances are huge)
// In large keyrings, only a few entries give access to everything (Full)
template<typename Key, int Id, typename Sig, typename FnSig, bool Full>
struct Entry;
template<typename Key, int Id, typename R, typename A, typename FnSig>
struct Entry<Key, Id, R(A), FnSig, false> {
  static Bytes request(const Flat &f, int) {
    Dst d;
    LIB("a key");
    Key{}(A(f[0])).write_to(d);
    USER;
    return d.out;
  }
  static FnDesc desc(const std::string &name);
};
template<typename Key, int Id, typename R, typename FnSig>
struct Entry<Key, Id, R(), FnSig, false> {
  static Bytes request(const Flat &, int) {
    Dst d;
    LIB("a key");
    Key{}().write_to(d);
    USER;
    return d.out;
  }
  static FnDesc desc(const std::string &name);
};
template<typename Key, int Id, typename R, typename... Args, typename FnSig>
struct Entry<Key, Id, R(Args...), FnSig, true> {
  typedef Key key_t;
  typedef TypesDesc<typename Bare<Args>::type...> ArgTypes;
  typedef TypesDesc<typename Bare<R>::type> RetTypes;

  template<typename Message>
  static Bytes send(Message &&m, int form) {
    USER;
    Bytes b;
    Dst d;
    if (form == 0) {
      LIB("writing a message");
      m.write_to(d);
    } else if (form == 1) {
      LIB("writing a message");
      m >> d;
    } else {
      b.reserve(key_t::payload_length);
      LIB("writing a message");
      m >> std::back_inserter(b);
    }
    if (form == 2) {
      must_be_defined(b.data(), b.size());
      tr(b.data(), b.size());
    }
    return form < 2 ? d.out : b;
  }
  template<std::size_t... Is>
  static Bytes request_impl(const Flat &f, int form, Seq<Is...>) {
    const i128 *p = f.data();
    std::tuple<Holder<typename Bare<Args>::type>...> t{Holder<typename Bare<Args>::type>(p)...};
    (void)p, (void)t;
    dirty_stack();
    LIB("a key");
    return send(key_t{}(std::get<Is>(t).v...), form);
  }
  static Bytes request(const Flat &f, int form) {
    return request_impl(f, form, typename MakeSeq<sizeof...(Args)>::type{});
  }
  static void hook(Src &src, int form, int times) {
    typedef HookFn<Id, R> F;
    const key_t k{};
    auto sink = [](u8) {};
    int calls = 0;
    switch (form) {
    case 0: {
      LIB("a hook without storage");
      const auto a = k.with_hook(upd::unevaluated<decltype(&F::call), &F::call>{});
      while (times--)
        a(src, sink);
      break;
    }
    case 1: {
      LIB("a hook without storage");
      const auto a = k.with_hook(upd::unevaluated<decltype(&F::by_value), &F::by_value>{});
      while (times--)
        a(src, sink);
      break;
    }
    case 2: {
      const auto a = k.with_hook(&F::call);
      LIB("a hook invocation");
      while (times--)
        a(src);
      break;
    }
    case 3: {
      auto a = k.with_hook(F::by_value);
      LIB("a hook invocation");
      while (times--)
        a(src, sink);
      break;
    }
    case 4: {
      typename F::Ftor f{0, &calls};
      auto a = k.with_hook(f);
      f.variant = -9;
      f.calls = nullptr;
      LIB("a hook invocation");
      while (times--)
        a(src);
      break;
    }
    case 5: {
      auto a = k.with_hook(typename F::Ftor{0, &calls});
      upd::action b = std::move(a);
      LIB("a hook invocation");
      while (times--)
        b(src, sink);
      break;
    }
    default: {
      LIB("a hook without storage");
#if __cplusplus >= 201703L && !defined(__clang__) // (which does not find this overload)
      const auto a = k.template with_hook<F::call>();
#else
      const auto a = k.with_hook(upd::unevaluated<decltype(&F::call), &F::call>{});
#endif
      while (times--)
        a(src, sink);
    }
    }
  }
  static FnDesc desc(const std::string &name) {
    FnDesc d;
    d.sig = name;
    d.args = ArgTypes::scalars();
    d.ret = RetTypes::scalars();
    d.is_void = std::is_void<R>::value;
    d.is_ident = IsIdent<FnSig>::value;
    d.arg_bytes = ref_size(d.args);
    d.ret_bytes = ref_size(d.ret);
    d.norm_args = ArgTypes::norm;
    d.decode_args = ArgTypes::decode;
    d.decode_ret = RetTypes::decode;
    d.request = request;
    d.payload_length = key_t::payload_length;
    d.key_index = key_t::index;
    d.decode = DecodeWith<key_t, typename std::conditional<std::is_void<R>::value, void, R>::type>::decode;
#ifdef NO_HOOKS
    d.hook = nullptr;
#else
    d.hook = hook;
#endif
    return d;
  }
};

template<typename ArgTypes, typename RetTypes>
FnDesc light_desc(const std::string &name, Bytes (*request)(const Flat &, int), std::size_t length, u64 index) {
  FnDesc d;
  d.sig = name;
  d.args = ArgTypes::scalars();
  d.ret = RetTypes::scalars();
  d.is_void = d.ret.empty();
  d.is_ident = false;
  d.arg_bytes = ref_size(d.args);
  d.ret_bytes = ref_size(d.ret);
  d.norm_args = ArgTypes::norm;
  d.decode_args = ArgTypes::decode;
  d.decode_ret = RetTypes::decode;
  d.request = request;
  d.payload_length = length;
  d.key_index = index;
  d.decode = nullptr;
  d.hook = nullptr;
  return d;
}
template<typename Key, int Id, typename R, typename A, typename FnSig>
FnDesc Entry<Key, Id, R(A), FnSig, false>::desc(const std::string &name) {
  return light_desc<TypesDesc<A>, TypesDesc<R>>(name, request, Key::payload_length, Key::index);
}
template<typename Key, int Id, typename R, typename FnSig>
FnDesc Entry<Key, Id, R(), FnSig, false>::desc(const std::string &name) {
  return light_desc<TypesDesc<>, TypesDesc<R>>(name, request, Key::payload_length, Key::index);
}

//---------------------------------------------------------------- keyrings

constexpr bool can_replace(std::size_t i, std::size_t n) { return n < 20 || i < 2 || i + 2 >= n; }

template<typename... Ss>
struct Sigs {};

template<int Id, int V, typename Sig>
struct HandleOf {
  typedef upd::unevaluated<decltype(&Fn<Id, V, Sig>::call), &Fn<Id, V, Sig>::call> type;
};

template<upd::endianess E, upd::signed_mode S, typename Is, typename L>
struct KeyringImpl;
template<upd::endianess E, upd::signed_mode S, std::size_t... Is, typename... Ss>
struct KeyringImpl<E, S, Seq<Is...>, Sigs<Ss...>> {
  typedef upd::keyring<E, S, typename HandleOf<int(Is), 0, Ss>::type...> type;
  static WorldDesc desc(const std::string &name) {
    WorldDesc w;
    w.fmt = fmt_of<E, S>();
    w.name = name + " " + fmt_name(w.fmt);
    w.index_size = sizeof...(Ss) < 256 ? 1 : sizeof...(Ss) < 65536 ? 2 : 4;
    w.advertised_size = type::size;
    w.fns = {Entry<typename type::template key_t<typename HandleOf<int(Is), 0, Ss>::type>,
                   int(Is),
                   typename SigOf<Ss>::type,
                   Ss,
                   can_replace(Is, sizeof...(Ss))>::desc(
        "f" + std::to_string(Is))...};
    return w;
  }
};

//---------------------------------------------------------------- dispatchers

enum Kind { PLAIN, SINGLE, DOUBLE, CUSTOM };
static const char *const kind_names[] = {"dispatcher", "single_buffered", "double_buffered", "custom"};

//! What the library returned
inline u64 result(u64 x) {
  USER;
  must_be_defined(&x, sizeof x);
  tr(x);
  return x;
}

struct IDisp {
  Kind kind;
  bool any;
  virtual ~IDisp() {}
  // plain
  virtual u64 process(Src &, Dst &) = 0; // index for the plain one, status for the others
  virtual u64 get_index(Src &) = 0;
  virtual bool get_action_and_call(Src &, Dst &) = 0; // false if there is no action
  // buffered
  virtual int put(u8) = 0;
  virtual int read(Src &, int form) = 0;
  virtual u8 get() = 0;
  virtual void write(Dst &, int form) = 0;
  virtual bool loaded() = 0;
  // all
  virtual bool replaceable(std::size_t fn) = 0;
  virtual void replace(std::size_t fn, int variant) = 0; // 0..2: functions, otherwise a functor
  virtual std::size_t input_size(std::size_t fn) = 0;
  virtual std::size_t output_size(std::size_t fn) = 0;
  virtual void call_action(std::size_t fn, Src &, Dst &) = 0;
  virtual long input_buffer() { return -1; }
  virtual long output_buffer() { return -1; }
  virtual bool reply(std::size_t, Dst &, int) { std::abort(); }
  virtual bool relocate(int, u8) { return false; }  // continue with a copy, or with what the object was moved to
  virtual IDisp *fork(int, u8) { return nullptr; } // another one, which is a copy
  std::string name() const { return std::string(kind_names[kind]) + (any ? "/any_callback" : "/weak_reference"); }
};

template<typename D>
struct custom_dispatcher : upd::buffered_dispatcher<custom_dispatcher<D>, D> {
  struct Heap { // exact blocks
    std::unique_ptr<u8[]> p;
    std::size_t n;
    explicit Heap(std::size_t n) : p(new u8[n]), n(n) { prefill(p.get(), n, 0xcd); }
    Heap(const Heap &o) : p(new u8[o.n]), n(o.n) { std::memcpy(p.get(), o.p.get(), n); }
    Heap(Heap &&o) = default;
    Heap &operator=(Heap o) {
      p = std::move(o.p);
      n = o.n;
      return *this;
    }
  };
  Heap in, out;
  custom_dispatcher(std::size_t i, std::size_t o) : in(i), out(o) {}
  u8 *ibuf_begin() { return in.p.get(); }
  u8 *obuf_begin() { return out.p.get(); }
};

//! Storage for an object constructed over memory with a given content
template<typename D>
struct Poisoned {
  void *mem;
  D *d;
  explicit Poisoned(u8 fill) : mem(::operator new(sizeof(D))), d(nullptr) { prefill(mem, sizeof(D), fill); }
  ~Poisoned() {
    if (d) {
      LIB("the destruction of a dispatcher");
      d->~D();
    }
    ::operator delete(mem);
  }
};

template<upd::action_features P, typename D, std::size_t I, int V, typename Sig>
struct ReplaceStatic {
  static void run(D &d) {
#if __cplusplus >= 201703L && !defined(__clang__)
    if (V == 2) {
      d.template replace<I, Fn<int(I), V, Sig>::call>();
      return;
    }
#endif
    d.template replace<I>(typename HandleOf<int(I), V, Sig>::type{});
  }
};
template<upd::action_features P, typename D, std::size_t I, typename Sig>
struct ReplaceFunctor {
  static void run(D &, int) { std::abort(); }
};
template<typename D, std::size_t I, typename Sig>
struct ReplaceFunctor<upd::action_features::ANY, D, I, Sig> {
  static void run(D &d, int variant) {
    if (variant % 2) {
      Functor<int(I), Sig> f = Functor<int(I), Sig>{variant};
      d.template replace<I>(f);
      f.variant = -99; // the dispatcher must own a copy
    } else
      d.template replace<I>(Functor<int(I), Sig>{variant});
  }
};

template<upd::action_features P, typename D, std::size_t I, typename Sig, bool Enabled>
struct Replacer {
  static void run(D &d, int variant) {
    if (variant == 0)
      ReplaceStatic<P, D, I, 0, Sig>::run(d);
    else if (variant == 1)
      ReplaceStatic<P, D, I, 1, Sig>::run(d);
    else if (variant == 2)
      ReplaceStatic<P, D, I, 2, Sig>::run(d);
    else
      ReplaceFunctor<P, D, I, Sig>::run(d, variant);
  }
};
template<upd::action_features P, typename D, std::size_t I, typename Sig>
struct Replacer<P, D, I, Sig, false> {
  static void run(D &, int) { std::abort(); }
};

template<upd::action_features P, typename D, typename Is, typename L>
struct ReplaceTable;
template<upd::action_features P, typename D, std::size_t... Is, typename... Ss>
struct ReplaceTable<P, D, Seq<Is...>, Sigs<Ss...>> {
  static void run(D &d, std::size_t fn, int variant) {
    typedef void (*F)(D &, int);
#ifdef NO_REPLACE
    static const F table[] = {Replacer<P, D, Is, Ss, false>::run...};
#else
    static const F table[] = {Replacer<P, D, Is, Ss, can_replace(Is, sizeof...(Ss))>::run...};
#endif
    if (P == upd::action_features::WEAK_REFERENCE) {
      LIB("a replacement with the weak-reference policy");
      table[fn](d, variant);
    } else
      table[fn](d, variant);
  }
};

template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct DispBase : IDisp {
  Poisoned<D> box;
  D &d() { return *box.d; }
  explicit DispBase(u8 fill) : box(fill) { any = P == upd::action_features::ANY; }
  template<typename K>
  void build() {
    if (P == upd::action_features::WEAK_REFERENCE) {
      LIB("the construction of a dispatcher with the weak-reference policy");
      box.d = new (box.mem) D(K{}, upd::action_features_h<P>{});
    } else
      box.d = new (box.mem) D(K{}, upd::action_features_h<P>{});
  }
#ifdef VALUES
  template<typename T = D, typename std::enable_if<std::is_copy_constructible<T>::value, int>::type = 0>
  static D *copy(void *mem, const D &o, int how, D *other) {
    (void)other;
    if (how == 0)
      return new (mem) D(o);
    *other = o;
    return new (mem) D(*other);
  }
  template<typename T = D, typename std::enable_if<!std::is_copy_constructible<T>::value, int>::type = 0>
  static D *copy(void *, const D &, int, D *) {
    return nullptr;
  }
  virtual DispBase *another(u8 fill) = 0;
  bool relocate(int how, u8 fill) override {
    Poisoned<D> next(fill);
    std::unique_ptr<DispBase> other(another(fill)); // of any history
    if (other->kind != PLAIN)
      for (int i = 0; i < how % 3; i++)
        other->put(0);
    D &o = other->d();
    dirty_stack();
    switch (how % 6) {
    case 0:
    case 1:
      next.d = copy(next.mem, d(), how % 6, &o);
      if (!next.d)
        return false;
      break;
    case 2:
      next.d = new (next.mem) D(std::move(d()));
      break;
    case 3:
      o = std::move(d());
      next.d = new (next.mem) D(std::move(o));
      break;
    case 4:
      std::swap(o, d());
      next.d = new (next.mem) D(std::move(o));
      break;
    default:
      o = std::move(d());
      d() = std::move(o); // there and back
      next.d = new (next.mem) D(std::move(d()));
    }
    std::swap(box.mem, next.mem);
    std::swap(box.d, next.d);
    next.d->~D();
    next.d = nullptr;
    std::memset(next.mem, 0xd7, sizeof(D)); // the original is no longer used
    return true;
  }
  IDisp *fork(int how, u8 fill) override {
    if (!std::is_copy_constructible<D>::value)
      return nullptr;
    std::unique_ptr<DispBase> n(another(fill)), other(another(u8(~fill)));
    n->box.d->~D();
    std::memset(n->box.mem, fill, sizeof(D));
    n->box.d = nullptr;
    n->box.d = copy(n->box.mem, d(), how % 2, &other->d());
    return n.release();
  }
#endif
  bool replaceable(std::size_t fn) override { return can_replace(fn, N); }
  void replace(std::size_t fn, int variant) override { ReplaceTable<P, D, Is, L>::run(d(), fn, variant); }
  std::size_t input_size(std::size_t fn) override {
    LIB("input_size");
    return d()[typename D::index_t(fn)].input_size();
  }
  std::size_t output_size(std::size_t fn) override {
    const D &c = d();
    LIB("output_size");
    return c[typename D::index_t(fn)].output_size();
  }
  void call_action(std::size_t fn, Src &s, Dst &o) override {
    LIB("an action");
    d()[typename D::index_t(fn)](s, o);
  }
};

template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct PlainDisp : DispBase<D, P, Is, L, N, KR> {
#ifdef VALUES
  PlainDisp *another(u8 fill) override {
    static const WorldDesc none{};
    return new PlainDisp(fill, none);
  }
#endif
  explicit PlainDisp(u8 fill, const WorldDesc &) : DispBase<D, P, Is, L, N, KR>(fill) {
    this->kind = PLAIN;
    this->template build<KR>();
  }
  u64 process(Src &s, Dst &o) override {
    dirty_stack();
    LIB("a dispatcher");
    return result(this->d()(s, o));
  }
  u64 get_index(Src &s) override {
    LIB("get_index");
    dirty_stack();
    return result(this->d().get_index(s));
  }
  bool get_action_and_call(Src &s, Dst &o) override {
    LIB("get_action");
    auto *a = this->d().get_action(s);
    if (!a)
      return false;
    (*a)(s, o);
    return true;
  }
  int put(u8) override { std::abort(); }
  int read(Src &, int) override { std::abort(); }
  u8 get() override { std::abort(); }
  void write(Dst &, int) override { std::abort(); }
  bool loaded() override { std::abort(); }
};

#ifdef WITH_REPLY
// Targets of reply: keys of two other keyrings, which take a buffer
struct Target {
  std::size_t size; // of the buffer
  Bytes index;
};
typedef u8 carray4[4];
template<std::size_t N>
struct TakeArray {
  static void call(std::array<u8, N>) {}
};
template<std::size_t N>
struct TakeRef {
  static u8 call(const std::array<u8, N> &) { return 0; }
};
template<std::size_t N>
struct TakeCArray {
  static void call(const u8 (&)[N]) {}
};
template<std::size_t I>
struct Filler {
  static void call() {}
};
template<typename T>
struct TargetHandle {
  typedef upd::unevaluated<decltype(&T::call), &T::call> type;
};
typedef upd::keyring<upd::endianess::BIG,
                     upd::signed_mode::OFFSET_BINARY,
                     TargetHandle<TakeArray<1>>::type,
                     TargetHandle<TakeArray<2>>::type,
                     TargetHandle<TakeRef<3>>::type,
                     TargetHandle<TakeArray<4>>::type,
                     TargetHandle<TakeCArray<5>>::type,
                     TargetHandle<TakeArray<8>>::type,
                     TargetHandle<TakeArray<16>>::type,
                     TargetHandle<TakeRef<32>>::type,
                     TargetHandle<TakeArray<33>>::type>
    SmallTargets;
template<upd::endianess E, typename Q>
struct LargeTargetsImpl;
template<upd::endianess E, std::size_t... Is>
struct LargeTargetsImpl<E, Seq<Is...>> {
  typedef upd::keyring<E,
                       upd::signed_mode::TWOS_COMPLEMENT,
                       typename TargetHandle<Filler<Is>>::type...,
                       TargetHandle<TakeArray<2>>::type,
                       TargetHandle<TakeArray<40>>::type>
      type;
};
typedef LargeTargetsImpl<upd::endianess::BIG, MakeSeq<258>::type>::type LargeTargets;

inline const std::vector<Target> &targets() {
  static const std::vector<Target> t = {{1, {0}}, {2, {1}}, {3, {2}}, {4, {3}}, {5, {4}}, {8, {5}}, {16, {6}}, {32, {7}}, {33, {8}}, {2, {1, 2}}, {40, {1, 3}}};
  return t;
}
template<typename D, typename KR, typename T>
bool reply_with(D &d, Dst &o, int form) {
  const auto k = KR{}.get(typename TargetHandle<T>::type{});
  if (form == 0) {
    dirty_stack();
    LIB("reply");
    return result(d.reply(o, k)) != 0;
  } else {
    Bytes b;
    b.reserve(k.payload_length);
    bool r;
    {
      LIB("reply");
      r = d.reply(std::back_inserter(b), k);
    }
    o.out.insert(o.out.end(), b.begin(), b.end());
    return r;
  }
}
template<typename D>
bool reply_to(D &d, std::size_t target, Dst &o, int form) {
  typedef bool (*F)(D &, Dst &, int);
  static const F table[] = {
      reply_with<D, SmallTargets, TakeArray<1>>, reply_with<D, SmallTargets, TakeArray<2>>,
      reply_with<D, SmallTargets, TakeRef<3>>,   reply_with<D, SmallTargets, TakeArray<4>>,
      reply_with<D, SmallTargets, TakeCArray<5>>, reply_with<D, SmallTargets, TakeArray<8>>,
      reply_with<D, SmallTargets, TakeArray<16>>, reply_with<D, SmallTargets, TakeRef<32>>,
      reply_with<D, SmallTargets, TakeArray<33>>, reply_with<D, LargeTargets, TakeArray<2>>,
      reply_with<D, LargeTargets, TakeArray<40>>};
  return table[target](d, o, form);
}
#endif

template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct BufferedDisp : DispBase<D, P, Is, L, N, KR> {
  explicit BufferedDisp(u8 fill) : DispBase<D, P, Is, L, N, KR>(fill) {}
  u64 process(Src &s, Dst &o) override {
    dirty_stack();
    LIB("a buffered dispatcher");
    return result(u64(this->d()(s, o)));
  }
  u64 get_index(Src &) override { std::abort(); }
  bool get_action_and_call(Src &, Dst &) override { std::abort(); }
  int put(u8 b) override {
    LIB("put");
    dirty_stack();
    return int(result(u64(this->d().put(b))));
  }
  int read(Src &s, int form) override {
    dirty_stack();
    LIB("read_from");
    if (form == 0)
      return int(result(u64(this->d().read_from(s))));
    return int(result(u64(this->d() << s)));
  }
  u8 get() override {
    LIB("get");
    dirty_stack();
    return u8(result(this->d().get()));
  }
  void write(Dst &o, int form) override {
    LIB("write_to");
    if (form == 0)
      this->d().write_to(o);
    else
      this->d() >> o;
  }
  bool loaded() override {
    const D &c = this->d();
    LIB("is_loaded");
    return result(c.is_loaded()) != 0;
  }
#ifdef WITH_REPLY
  bool reply(std::size_t target, Dst &o, int form) override { return reply_to(this->d(), target, o, form); }
#endif
};

template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct SingleDisp : BufferedDisp<D, P, Is, L, N, KR> {
#ifdef VALUES
  SingleDisp *another(u8 fill) override {
    static const WorldDesc none{};
    return new SingleDisp(fill, none);
  }
#endif
  explicit SingleDisp(u8 fill, const WorldDesc &) : BufferedDisp<D, P, Is, L, N, KR>(fill) {
    this->kind = SINGLE;
    this->template build<KR>();
  }
  long input_buffer() override { return long(+D::buffer_size); }
  long output_buffer() override { return long(+D::buffer_size); }
};
template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct DoubleDisp : BufferedDisp<D, P, Is, L, N, KR> {
#ifdef VALUES
  DoubleDisp *another(u8 fill) override {
    static const WorldDesc none{};
    return new DoubleDisp(fill, none);
  }
#endif
  explicit DoubleDisp(u8 fill, const WorldDesc &) : BufferedDisp<D, P, Is, L, N, KR>(fill) {
    this->kind = DOUBLE;
    this->template build<KR>();
  }
  long input_buffer() override { return long(+D::input_buffer_size); }
  long output_buffer() override { return long(+D::output_buffer_size); }
};
template<typename D, upd::action_features P, typename Is, typename L, std::size_t N, typename KR>
struct CustomDisp : BufferedDisp<D, P, Is, L, N, KR> {
#ifdef VALUES
  CustomDisp *another(u8 fill) override { return new CustomDisp(fill, desc); }
#endif
  const WorldDesc &desc;
  explicit CustomDisp(u8 fill, const WorldDesc &w) : BufferedDisp<D, P, Is, L, N, KR>(fill), desc(w) {
    this->kind = CUSTOM;
    this->box.d = new (this->box.mem) D(w.max_request(), w.max_response());
  }
};

typedef std::unique_ptr<IDisp> DispPtr;

struct World {
  WorldDesc desc;
  DispPtr (*make)(Kind, bool any, u8 fill, const WorldDesc &);
  DispPtr disp(Kind k, bool any, u8 fill = 0xa5) const { return make(k, any, fill, desc); }
};

template<upd::endianess E, upd::signed_mode S, typename Is, typename L>
struct WorldImpl;
template<upd::endianess E, upd::signed_mode S, std::size_t... Is, typename... Ss>
struct WorldImpl<E, S, Seq<Is...>, Sigs<Ss...>> {
  typedef KeyringImpl<E, S, Seq<Is...>, Sigs<Ss...>> KI;
  typedef typename KI::type KR;
  typedef Seq<Is...> Q;
  typedef Sigs<Ss...> L;
  enum { N = sizeof...(Ss) };
  template<upd::action_features P>
  static DispPtr make_with(Kind k, u8 fill, const WorldDesc &w) {
    typedef upd::dispatcher<KR, P> D;
    switch (k) {
    case PLAIN:
#ifndef NO_PLAIN
      return DispPtr(new PlainDisp<D, P, Q, L, N, KR>(fill, w));
#endif
#ifndef NO_BUFFERED
    case SINGLE:
      return DispPtr(new SingleDisp<upd::single_buffered_dispatcher<D>, P, Q, L, N, KR>(fill, w));
    case DOUBLE:
      return DispPtr(new DoubleDisp<upd::double_buffered_dispatcher<D>, P, Q, L, N, KR>(fill, w));
    case CUSTOM:
      return DispPtr(new CustomDisp<custom_dispatcher<D>, P, Q, L, N, KR>(fill, w));
#endif
    default:
      std::abort();
    }
  }
  static DispPtr make(Kind k, bool any, u8 fill, const WorldDesc &w) {
#ifdef NO_ANY
    if (any)
      std::abort();
#else
    if (any)
      return make_with<upd::action_features::ANY>(k, fill, w);
#endif
    return make_with<upd::action_features::WEAK_REFERENCE>(k, fill, w);
  }
  static World world(const std::string &name) { return World{KI::desc(name), make}; }
};

template<upd::endianess E, upd::signed_mode S, typename... Ss>
World make_world(const std::string &name, Sigs<Ss...>) {
  return WorldImpl<E, S, typename MakeSeq<sizeof...(Ss)>::type, Sigs<Ss...>>::world(name);
}

//---------------------------------------------------------------- the keyrings

typedef std::array<u8, 7> a7;
typedef Sigs<void(), u8(u8), i32(i16, u8), bool(bool, i64), u16(), void(i8, u32)> Small;
typedef Sigs<std::array<i64, 4>(u8), u8(), void(i8), u64(), std::array<i16, 5>(bool)> WideReturn;
typedef Sigs<u8(std::array<u32, 6>, i64), i16(u64, i64, u64), void(std::array<u8, 30>), i8()> WideArg;
typedef Sigs<Pad(Pad), Nest(u8, Nest), Shrink(Shrink, Shrink), Grow(Grow, u8), Wide(Wide, Tight), void(Grow, Pad)> Users;
typedef Sigs<Text(Color, Text), Color(), void(Flip, bool), Flip(Text, u16), const Text &(const Color &), std::array<i16, 2>(Flip)> Users2;
typedef Sigs<void(), void(u8), void(i32, Pad), void(std::array<i16, 2>)> AllVoid;
typedef Sigs<const i32 &(i32),
             const Pad &(const Pad &, u8),
             i16(const i16 &, i64 &&),
             Ident<i32>,
             Ident<Wide>,
             u8(const i32 (&)[3], bool),
             const std::array<u16, 3> &(std::array<u16, 3> &&)>
    Refs;
typedef Sigs<void()> Lone;
typedef Sigs<u8(std::array<u8, 300>), std::array<u16, 200>(u8), void(std::array<u32, 64>, u8), u16(), std::array<u8, 256>(std::array<u8, 256>)> Huge;
typedef Sigs<u8(u8), u16(std::array<u8, 65530>, u32, u32), std::array<u8, 65600>(u8)> Giant;
// Responses of every size which replies deal with
typedef Sigs<void(), u8(u8), u16(), std::array<u8, 3>(), u32(u8), std::array<u8, 5>(), u64(), Pad(), std::array<u8, 16>(u16), std::array<u8, 33>(), std::array<u16, 20>()> Answers;
typedef Sigs<char(wchar_t, char16_t), char32_t(long, unsigned long), signed char(signed char, short), std::array<bool, 3>(std::array<bool, 3>), long long(long long)> Odd;

template<std::size_t I>
struct BigSig {
  typedef typename std::conditional<I % 3 == 0, Lite<u8(u8)>, typename std::conditional<I % 3 == 1, Lite<void(i16)>, Lite<u16()>>::type>::type
      type;
};
template<typename Q>
struct BigImpl;
template<std::size_t... Is>
struct BigImpl<Seq<Is...>> {
  typedef Sigs<typename BigSig<Is>::type...> type;
};
template<std::size_t N>
using Big = typename BigImpl<typename MakeSeq<N>::type>::type;

// -DWORLD=... -DEND=LITTLE|BIG -DSGN=...
#ifndef WORLD
#define WORLD Small
#endif
#ifndef END
#define END LITTLE
#endif
#ifndef SGN
#define SGN TWOS_COMPLEMENT
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef NO_DISPATCHERS
inline World the_world() {
  World w = make_world<upd::endianess::END, upd::signed_mode::SGN>(STR(WORLD), WORLD{});
  cw().fmt = w.desc.fmt;
  return w;
}
#endif

//! The keys of a keyring in every format
template<typename Sigs_t>
struct AllFormats;
template<typename... Ss>
struct AllFormats<Sigs<Ss...>> {
  template<upd::endianess E, upd::signed_mode S>
  static WorldDesc one(const std::string &name) {
    return KeyringImpl<E, S, typename MakeSeq<sizeof...(Ss)>::type, Sigs<Ss...>>::desc(name);
  }
  static std::vector<WorldDesc> all(const std::string &name) {
#define ONE(E, S) one<upd::endianess::E, upd::signed_mode::S>(name),
#ifdef TWO_FORMATS
    return {ONE(LITTLE, OFFSET_BINARY) ONE(BIG, TWOS_COMPLEMENT)};
#else
    return {FOR_ALL_FORMATS(ONE)};
#endif
#undef ONE
  }
};
