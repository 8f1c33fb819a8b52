// Uniform access to tuples and to views over all sorts of iterators: a thin layer of adapters, judged by layout.cpp.
#pragma once

#include "common.hpp"
#include "types.hpp"

#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <tuple>
#include <utility>

//---------------------------------------------------------------- helpers

template<std::size_t...>
struct Seq {};
template<std::size_t N, std::size_t... Is>
struct MakeSeq : MakeSeq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct MakeSeq<0, Is...> {
  typedef Seq<Is...> type;
};

template<typename T>
struct Holder {
  T v;
  explicit Holder(const Flat &f) : v(make(f)) {}
  static T make(const Flat &f) {
    const i128 *p = f.data();
    return Tr<T>::build(p);
  }
};
template<typename T, std::size_t N>
struct Holder<T[N]> {
  T v[N];
  explicit Holder(const Flat &f) {
    const i128 *p = f.data();
    for (auto &e : v)
      e = Tr<T>::build(p);
  }
};

template<typename... Ts>
struct Types {
  enum { N = sizeof...(Ts) };
  typedef typename MakeSeq<N>::type Q;
};

//---------------------------------------------------------------- an iterator which tells what it touches

struct Touch {
  u8 *base;
  long lo, hi;   // what may be dereferenced
  long first, last; // where the iterator may be
  bool bad_access, bad_move;
  u64 reads;
};
inline Touch &touch() {
  static Touch t = {nullptr, 0, 0, 0, 0, false, false, 0};
  return t;
}
template<bool Const>
struct TrackIt {
  typedef std::forward_iterator_tag iterator_category;
  typedef u8 value_type;
  typedef std::ptrdiff_t difference_type;
  typedef typename std::conditional<Const, const u8 *, u8 *>::type pointer;
  typedef typename std::conditional<Const, const u8 &, u8 &>::type reference;
  long at;
  explicit TrackIt(long at = 0) : at(at) {}
  reference operator*() const {
    Touch &t = touch();
    t.reads++;
    if (at < t.lo || at >= t.hi) {
      t.bad_access = true;
      static u8 nowhere;
      return nowhere;
    }
    return t.base[at];
  }
  TrackIt &operator++() {
    at++;
    if (at > touch().last)
      touch().bad_move = true;
    return *this;
  }
  TrackIt operator++(int) {
    TrackIt c = *this;
    ++*this;
    return c;
  }
  bool operator==(const TrackIt &o) const { return at == o.at; }
  bool operator!=(const TrackIt &o) const { return at != o.at; }
};

//---------------------------------------------------------------- what is judged

struct InvokeResult {
  int calls;
  Flat args;
  u64 returned, expected;
};

struct Elem {
  std::vector<Scalar> scalars;
  std::size_t offset, bytes;
  Flat (*decode)(const u8 *, Fmt);
  void (*norm)(Flat &);
};

//! A tuple or a view together with all of the memory around the bytes it stands for
struct Store {
  std::string name;
  Fmt fmt;
  std::vector<Elem> elems;
  std::size_t margin; // position of the first byte in the memory
  std::size_t advertised;
  bool readonly;
  virtual ~Store() {}
  virtual Bytes memory() = 0;
  virtual void poke(std::size_t pos, u8 b) = 0; // through no means of the library
  virtual bool ends_ok() = 0;
  virtual Flat get(std::size_t i, int form) = 0;
  virtual void set(std::size_t, const Flat &, int) { std::abort(); }
  virtual InvokeResult invoke(int form) = 0;
  virtual int invoke_forms() = 0;
  virtual bool relocate(int) { return false; } // continue with a copy, or with what the object was moved to
  std::size_t bytes() const { return elems.empty() ? 0 : elems.back().offset + elems.back().bytes; }
};

template<typename... Ts>
struct Elems {
  template<typename T>
  static void add(std::vector<Elem> &l) {
    Elem e;
    e.scalars = scalars_of<T>();
    e.offset = l.empty() ? 0 : l.back().offset + l.back().bytes;
    e.bytes = ref_size(e.scalars);
    e.decode = decoded_as<T>;
    e.norm = consistent<T>;
    l.push_back(e);
  }
  static std::vector<Elem> all() {
    std::vector<Elem> l;
    const int d[] = {0, (add<Ts>(l), 0)...};
    (void)d;
    return l;
  }
};

//! Functors given to invoke
template<typename T>
struct ByRef {
  typedef const T &type;
};
template<typename T>
struct ByRvalue {
  typedef T &&type;
};
template<typename T>
struct ByValue {
  typedef T type;
};
template<typename T, std::size_t N>
struct ByValue<T[N]> {
  typedef const T (&type)[N];
};
inline InvokeResult &result() {
  static InvokeResult r;
  return r;
}
inline u64 record(const Flat &f) {
  USER;
  InvokeResult &r = result();
  r.calls++;
  r.args = f;
  r.expected = 77;
  for (auto x : f)
    r.expected = hash_add(r.expected, u64(x));
  return r.expected;
}
template<template<typename> class By, typename... Ts>
struct Catcher {
  int state;
  u64 operator()(typename By<Ts>::type... args) {
    USER;
    Flat f;
    const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
    (void)d;
    state++;
    return record(f);
  }
};
template<typename... Ts>
u64 catch_function(typename ByValue<Ts>::type... args) {
  USER;
  Flat f;
  const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
  (void)d;
  return record(f);
}
template<typename... Ts>
struct VoidCatcher { // not copiable, called as a temporary
  VoidCatcher() {}
  VoidCatcher(const VoidCatcher &) = delete;
  void operator()(const Ts &...args) const {
    USER;
    Flat f;
    const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
    (void)d;
    record(f);
  }
};
template<typename... Ts>
struct RefCatcher { // returns a reference and a move-only object
  u64 value;
  u64 &operator()(const Ts &...args) {
    USER;
    Flat f;
    const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
    (void)d;
    value = record(f);
    return value;
  }
};
template<typename... Ts>
struct UniqueCatcher {
  std::unique_ptr<u64> operator()(const Ts &...args) {
    USER;
    Flat f;
    const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
    (void)d;
    return std::unique_ptr<u64>(new u64(record(f)));
  }
};

#ifndef SETTERS
#define SETTERS 1
#endif

template<typename V, bool ReadOnly, typename Q, typename L>
struct Ops;
template<typename V, bool ReadOnly, std::size_t... Is, typename... Ts>
struct Ops<V, ReadOnly, Seq<Is...>, Types<Ts...>> {
  template<std::size_t I>
  static auto member_get(const V &v) -> decltype(v.template get<I>()) {
    LIB("get");
    return v.template get<I>();
  }
  template<std::size_t I>
  static auto free_get(const V &v) -> decltype(upd::get<I>(v)) {
    LIB("get");
    return upd::get<I>(v);
  }
  template<std::size_t I, typename T>
  static Flat get1(const V &v, int form) {
    Flat f;
    if (form == 0)
      Tr<T>::flat(f, member_get<I>(v));
    else
      Tr<T>::flat(f, free_get<I>(v));
    return f;
  }
  static Flat get(const V &v, std::size_t i, int form) {
    typedef Flat (*F)(const V &, int);
    static const F table[] = {get1<Is, Ts>..., nullptr};
    return table[i](v, form);
  }
  template<std::size_t I, typename T>
  static void set1(V &v, const Flat &f, int form) {
    const Holder<T> h(f);
    LIB("set");
    if (form == 0)
      v.template set<I>(h.v);
    else
      upd::set<I>(v, h.v);
  }
  static void set(V &v, std::size_t i, const Flat &f, int form) {
    typedef void (*F)(V &, const Flat &, int);
    static const F table[] = {set1<Is, Ts>..., nullptr};
    table[i](v, f, form);
  }
  static InvokeResult invoke(const V &v, int form) {
    InvokeResult &r = result();
    r = InvokeResult{0, Flat(), 0, 0};
    LIB("invoke");
    switch (form) {
    case 0: {
      Catcher<ByRef, Ts...> c{5};
      r.returned = v.invoke(c);
      r.calls += c.state - 6; // must be called in place
      break;
    }
    case 1:
      r.returned = v.invoke(catch_function<Ts...>);
      break;
    case 2:
      r.returned = v.invoke(Catcher<ByRvalue, Ts...>{5});
      break;
    case 3:
      v.invoke(VoidCatcher<Ts...>{});
      r.returned = r.expected;
      break;
    case 4: {
      RefCatcher<Ts...> c{0};
      auto &x = v.invoke(c);
      static_assert(std::is_same<decltype(v.invoke(c)), u64 &>::value, "invoke returns what the functor returns");
      r.returned = &x == &c.value ? x : 0;
      break;
    }
    case 5: {
      const std::unique_ptr<u64> p = v.invoke(UniqueCatcher<Ts...>{});
      r.returned = *p;
      break;
    }
    default: {
      int n = 0;
      r.returned = v.invoke([&](const Ts &...args) -> u64 {
        USER;
        Flat f;
        const int d[] = {0, (Tr<Ts>::flat(f, args), 0)...};
        (void)d;
        n++;
        return record(f);
      });
      r.calls += n - 1;
    }
    }
    USER;
    return r;
  }
};
template<typename V, std::size_t... Is, typename... Ts>
struct Ops<V, true, Seq<Is...>, Types<Ts...>> : Ops<V, false, Seq<Is...>, Types<Ts...>> {
  static void set(V &, std::size_t, const Flat &, int) { std::abort(); }
};

enum { INVOKE_FORMS = 7 };

template<typename V, bool ReadOnly, typename L>
struct StoreBase;
template<typename V, bool ReadOnly, typename... Ts>
struct StoreBase<V, ReadOnly, Types<Ts...>> : Store {
  typedef Ops<V, ReadOnly, typename Types<Ts...>::Q, Types<Ts...>> O;
  virtual V &v() = 0;
  StoreBase(const std::string &n, std::size_t m) {
    name = n + " " + fmt_name(fmt_of<V::storage_endianess, V::storage_signed_mode>());
    fmt = fmt_of<V::storage_endianess, V::storage_signed_mode>();
    elems = Elems<Ts...>::all();
    margin = m;
    advertised = V::size;
    readonly = ReadOnly;
  }
  Flat get(std::size_t i, int form) override { return O::get(v(), i, form); }
  void set(std::size_t i, const Flat &f, int form) override { O::set(v(), i, f, form); }
#ifdef NO_INVOKE
  InvokeResult invoke(int) override { std::abort(); }
#else
  InvokeResult invoke(int form) override { return O::invoke(v(), form); }
#endif
  int invoke_forms() override { return INVOKE_FORMS; }
};

//! A tuple alone in a block of memory
template<upd::endianess E, upd::signed_mode S, typename L>
struct TupleStore;
template<upd::endianess E, upd::signed_mode S, typename... Ts>
struct TupleStore<E, S, Types<Ts...>> : StoreBase<upd::tuple<E, S, Ts...>, false, Types<Ts...>> {
  typedef upd::tuple<E, S, Ts...> T;
  enum { M = 24 };
  void *mem;
  T *t;
  T &v() override { return *t; }
  void allocate() {
    mem = ::operator new(sizeof(T) + 2 * M);
    std::memset(mem, 0x5c, sizeof(T) + 2 * M);
    if (opt().fill >= 0)
      prefill(place(), sizeof(T), 0x5c);
    else
      undefined(place(), sizeof(T));
  }
  void *place() { return (char *)mem + M; }
  ~TupleStore() {
    t->~T();
    ::operator delete(mem);
  }
  TupleStore() : StoreBase<T, false, Types<Ts...>>("default tuple", M) {
    allocate();
    LIB("the construction of a tuple");
    t = new (place()) T();
  }
  template<std::size_t... Is>
  TupleStore(const std::vector<Flat> &values, int form, Seq<Is...>) : StoreBase<T, false, Types<Ts...>>("tuple", M) {
    allocate();
    const std::tuple<Holder<Ts>...> h{Holder<Ts>(values[Is])...};
    const auto eh = upd::endianess_h<E>{};
    const auto sh = upd::signed_mode_h<S>{};
    (void)eh, (void)sh;
    LIB("the construction of a tuple");
    switch (form) {
    case 0:
      t = new (place()) T(std::get<Is>(h).v...);
      break;
    case 1:
      t = new (place()) T(upd::make_tuple(eh, sh, std::get<Is>(h).v...));
      break;
    default:
#if __cplusplus >= 201703L
      t = new (place()) T(eh, sh, std::get<Is>(h).v...);
#else
      t = new (place()) T{std::get<Is>(h).v...};
#endif
    }
  }
  TupleStore(const std::vector<Flat> &values, int form) : TupleStore(values, form, typename Types<Ts...>::Q{}) {}
#ifdef VALUES
  bool relocate(int how) override {
    void *old_mem = mem;
    T *old = t;
    dirty_stack();
    allocate();
    switch (how % 5) {
    case 0:
      t = new (place()) T(const_cast<const T &>(*old));
      break;
    case 1:
      t = new (place()) T(std::move(*old));
      break;
    case 2:
      t = new (place()) T();
      *t = const_cast<const T &>(*old);
      break;
    case 3:
      t = new (place()) T();
      *t = std::move(*old);
      break;
    default: {
      t = new (place()) T();
      std::swap(*t, *old);
      T fresh;
      EXPECT(!std::memcmp(old->begin(), fresh.begin(), T::size), "values", "%s: a swap with a default tuple leaves other bytes", this->name.c_str());
    }
    }
    std::memset(old->begin(), 0x77, T::size); // no effect on the copy
    old->~T();
    ::operator delete(old_mem);
    return true;
  }
#endif
  Bytes memory() override {
    // what surrounds the storage, wherever it is in the object
    const u8 *p = t->begin();
    return Bytes(p - M, p + T::size + M);
  }
  void poke(std::size_t pos, u8 b) override { t->begin()[pos - M] = b; }
  bool ends_ok() override {
    const T &c = *t;
    bool ok = t->end() - t->begin() == std::ptrdiff_t(this->bytes()) && c.end() - c.begin() == t->end() - t->begin() && c.begin() == t->begin() &&
              t->src() == t->begin() && c.src() == c.begin();
    for (std::size_t i = 0; i < this->bytes(); i++)
      ok = ok && &c[i] == c.begin() + i && &(*t)[i] == t->begin() + i;
    // the storage is within the object
    return ok && (const u8 *)t->begin() >= (const u8 *)t && (const u8 *)t->end() <= (const u8 *)(t + 1);
  }
};

inline void fill_margin(u8 &b, std::size_t i) { b = u8(0xb0 + i % 13); }

//! Continue with a copy of a view, or with a view assigned from it which was bound elsewhere
template<typename V, typename It>
static void relocate_view(std::unique_ptr<V> &view, It elsewhere, int how) {
  std::unique_ptr<V> old = std::move(view);
  LIB("the copy of a view");
  switch (how % 5) {
  case 0:
    view.reset(new V(const_cast<const V &>(*old)));
    break;
  case 1:
    view.reset(new V(std::move(*old)));
    break;
  case 2:
    view.reset(new V(elsewhere));
    *view = const_cast<const V &>(*old);
    break;
  case 3:
    view.reset(new V(elsewhere));
    *view = std::move(*old);
    break;
  default:
    view.reset(new V(elsewhere));
    std::swap(*view, *old);
  }
}

//! A view over a part of a container
template<typename C, typename It, upd::endianess E, upd::signed_mode S, bool Const, typename L>
struct ViewStore;
template<typename C, typename It, upd::endianess E, upd::signed_mode S, bool Const, typename... Ts>
struct ViewStore<C, It, E, S, Const, Types<Ts...>> : StoreBase<upd::tuple_view<It, E, S, Ts...>, Const, Types<Ts...>> {
  typedef upd::tuple_view<It, E, S, Ts...> V;
  typedef StoreBase<V, Const, Types<Ts...>> Base;
  enum { M = 5 };
  C c;
  std::unique_ptr<V> view;
  V &v() override { return *view; }
  It at_margin() {
    It it = c.begin();
    std::advance(it, M);
    return it;
  }
  explicit ViewStore(const std::string &name) : Base(name, M), c(Base::bytes() + 2 * M) {
    std::size_t i = 0;
    for (auto &b : c)
      fill_margin(b, i++);
    const It from = at_margin();
    alignas(V) u8 place[sizeof(V)];
    {
      LIB("make_view");
      new (place) V(upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, from));
    }
    view.reset(new V(upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, at_margin())));
  }
#ifdef VALUES
  bool relocate(int how) override {
    C other(c);
    It it = other.begin();
    std::advance(it, 2);
    relocate_view(view, it, how);
    EXPECT(Bytes(other.begin(), other.end()) == memory(), "values", "%s: assigning a view writes bytes", this->name.c_str());
    return true;
  }
#endif
  Bytes memory() override { return Bytes(c.begin(), c.end()); }
  void poke(std::size_t pos, u8 b) override {
    auto it = c.begin();
    std::advance(it, pos);
    *it = b;
  }
  bool ends_ok() override {
    const V &cv = *view;
    It e = at_margin();
    std::advance(e, this->bytes());
    return cv.begin() == at_margin() && cv.end() == e && cv.src() == cv.begin();
  }
};

//! Over an exact heap block, through raw pointers (which AddressSanitizer guards)
struct Block {
  typedef u8 *iterator;
  typedef const u8 *const_iterator;
  std::unique_ptr<u8[]> p;
  std::size_t n;
  explicit Block(std::size_t n) : p(new u8[n]), n(n) {}
  u8 *begin() { return p.get(); }
  u8 *end() { return p.get() + n; }
};
template<typename It, upd::endianess E, upd::signed_mode S, bool Const, typename L>
struct BlockStore;
template<typename It, upd::endianess E, upd::signed_mode S, bool Const, typename... Ts>
struct BlockStore<It, E, S, Const, Types<Ts...>> : StoreBase<upd::tuple_view<It, E, S, Ts...>, Const, Types<Ts...>> {
  typedef upd::tuple_view<It, E, S, Ts...> V;
  typedef StoreBase<V, Const, Types<Ts...>> Base;
  Block b;
  std::unique_ptr<V> view;
  V &v() override { return *view; }
  explicit BlockStore(const std::string &name) : Base(name, 0), b(Base::bytes()), view(new V(b.begin())) { std::memset(b.begin(), 0x5a, b.n); }
#ifdef VALUES
  bool relocate(int how) override {
    Block other(b.n);
    std::memcpy(other.begin(), b.begin(), b.n);
    relocate_view(view, It(other.begin()), how);
    EXPECT(Bytes(other.begin(), other.end()) == memory(), "values", "%s: assigning a view writes bytes", this->name.c_str());
    return true;
  }
#endif
  Bytes memory() override { return Bytes(b.begin(), b.end()); }
  void poke(std::size_t pos, u8 x) override { b.begin()[pos] = x; }
  bool ends_ok() override { return view->begin() == b.begin() && view->end() == b.end() && view->src() == view->begin(); }
};

//! Through an iterator which tells what it touches
template<upd::endianess E, upd::signed_mode S, bool Const, typename L>
struct TrackStore;
template<upd::endianess E, upd::signed_mode S, bool Const, typename... Ts>
struct TrackStore<E, S, Const, Types<Ts...>> : StoreBase<upd::tuple_view<TrackIt<Const>, E, S, Ts...>, Const, Types<Ts...>> {
  typedef upd::tuple_view<TrackIt<Const>, E, S, Ts...> V;
  typedef StoreBase<V, Const, Types<Ts...>> Base;
  enum { M = 5 };
  Bytes b;
  std::unique_ptr<V> view;
  V &v() override { return *view; }
  void allow(std::size_t lo, std::size_t hi) {
    Touch &t = touch();
    t.base = b.data();
    t.lo = long(lo + M);
    t.hi = long(hi + M);
    t.first = M;
    t.last = long(M + this->bytes());
    t.bad_access = t.bad_move = false;
  }
  void check(const char *what) {
    Touch &t = touch();
    EXPECT(!t.bad_access, "touch", "%s: %s dereferences an iterator out of bytes %ld to %ld", this->name.c_str(), what, t.lo - M, t.hi - M);
    EXPECT(!t.bad_move, "touch", "%s: %s moves an iterator past the end of the range", this->name.c_str(), what);
  }
  explicit TrackStore(const std::string &name) : Base(name, M), b(Base::bytes() + 2 * M) {
    for (std::size_t i = 0; i < b.size(); i++)
      fill_margin(b[i], i);
    allow(0, 0);
    view.reset(new V(TrackIt<Const>(M)));
    check("making a view");
  }
#ifdef VALUES
  bool relocate(int how) override {
    allow(0, 0);
    relocate_view(view, TrackIt<Const>(M), how);
    check("copying a view");
    return true;
  }
#endif
  Flat get(std::size_t i, int form) override {
    allow(this->elems[i].offset, this->elems[i].offset + this->elems[i].bytes);
    const Flat f = Base::get(i, form);
    check("get");
    return f;
  }
  void set(std::size_t i, const Flat &f, int form) override {
    allow(this->elems[i].offset, this->elems[i].offset + this->elems[i].bytes);
    Base::set(i, f, form);
    check("set");
  }
  InvokeResult invoke(int form) override {
    allow(0, this->bytes());
    const InvokeResult r = Base::invoke(form);
    check("invoke");
    return r;
  }
  Bytes memory() override { return b; }
  void poke(std::size_t pos, u8 x) override { b[pos] = x; }
  bool ends_ok() override { return view->begin().at == M && view->end().at == long(M + this->bytes()) && view->src().at == M; }
};

//! Over a part of a larger tuple
template<upd::endianess E, upd::signed_mode S, bool Const, typename L>
struct SubStore;
template<upd::endianess E, upd::signed_mode S, bool Const>
struct SubTuple;
template<upd::endianess E, upd::signed_mode S, typename... Ts>
struct SubTypes {
  typedef upd::tuple<E, S, u16, std::array<i16, 2>, Ts..., i32, u8> T;
  enum { FROM = 2 };
  static auto view(T &t) -> decltype(t.template view<2, sizeof...(Ts)>()) { return t.template view<2, sizeof...(Ts)>(); }
  static auto view(const T &t) -> decltype(t.template view<2, sizeof...(Ts)>()) { return upd::make_view<2, sizeof...(Ts)>(t); }
};
template<upd::endianess E, upd::signed_mode S, bool Const, typename... Ts>
struct SubStore<E, S, Const, Types<Ts...>>
    : StoreBase<upd::tuple_view<typename std::conditional<Const, const u8 *, u8 *>::type, E, S, Ts...>, Const, Types<Ts...>> {
  typedef SubTypes<E, S, Ts...> ST;
  typedef typename ST::T T;
  typedef typename std::conditional<Const, const T, T>::type CT;
  typedef upd::tuple_view<typename std::conditional<Const, const u8 *, u8 *>::type, E, S, Ts...> V;
  typedef StoreBase<V, Const, Types<Ts...>> Base;
  std::unique_ptr<T> t;
  std::unique_ptr<V> view;
  V &v() override { return *view; }
  explicit SubStore(const std::string &name) : Base(name, 6), t(new T()) {
    for (std::size_t i = 0; i < T::size; i++)
      fill_margin((*t)[i], i);
    view.reset(new V(ST::view(static_cast<CT &>(*t))));
  }
#ifdef VALUES
  bool relocate(int how) override {
    T other(*t);
    relocate_view(view, ST::view(static_cast<CT &>(other)).begin(), how);
    EXPECT(Bytes(other.begin(), other.end()) == memory(), "values", "%s: assigning a view writes bytes", this->name.c_str());
    return true;
  }
#endif
  Bytes memory() override { return Bytes(t->begin(), t->end()); }
  void poke(std::size_t pos, u8 x) override { (*t)[pos] = x; }
  bool ends_ok() override {
    return view->begin() == t->begin() + 6 && view->end() == t->begin() + 6 + this->bytes() && T::size == this->bytes() + 6 + 5;
  }
};

typedef std::unique_ptr<Store> StorePtr;

//! Assign the elements of one to another: both are made here
struct AssignCase {
  std::string name;
  StorePtr dst, src;
  std::function<void()> assign;
};

//---------------------------------------------------------------- lists of types

typedef std::array<u16, 3> a16;
typedef std::array<std::array<i16, 2>, 2> nested;
typedef Types<u8, i16, bool, i64, u32> Basic;
typedef Types<i32> One;
typedef Types<a16, u8, std::array<i64, 2>, std::array<bool, 3>, nested, std::array<char, 1>> Arrays;
typedef Types<i16[4], u8, bool[2], u32[1]> Plain;
//! Elements past the 256th byte
typedef Types<std::array<u16, 90>, u8, i32, std::array<i8, 90>, u16, bool, i64> Long;
typedef Types<Pad, u8, Nest, Shrink, i16, Grow, Wide> User;
typedef Types<u8, Color, Text, bool, Flip, Tight, char> User2;
typedef Types<Grow> UserAlone;
typedef Types<u8, u16, u32, u64, i8, i16, i32, i64, bool, char, wchar_t, char16_t, char32_t, long long, unsigned long, signed char, bool, i8, u8, i64> Many;

#ifndef LIST
#define LIST Basic
#endif
