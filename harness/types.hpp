// Value types used by the harnesses, their flattening into scalars, and the user extensions given to the library.
#pragma once

#include "common.hpp"

#include <string>

#include <upd/format.hpp>
#include <upd/tuple.hpp>

template<typename T>
struct Tr;

#define SCALAR_TRAITS(T)                                                                                               \
  template<>                                                                                                           \
  struct Tr<T> {                                                                                                       \
    static void scalars(std::vector<Scalar> &l) {                                                                      \
      l.push_back(Scalar{unsigned(sizeof(T)), std::is_signed<T>::value, std::is_same<T, bool>::value});                \
    }                                                                                                                  \
    static void flat(Flat &f, const T &x) { f.push_back(i128(x)); }                                                    \
    static T build(const i128 *&p) { return static_cast<T>(*p++); }                                                                 \
  };

SCALAR_TRAITS(bool)
SCALAR_TRAITS(char)
SCALAR_TRAITS(signed char)
SCALAR_TRAITS(unsigned char)
SCALAR_TRAITS(short)
SCALAR_TRAITS(unsigned short)
SCALAR_TRAITS(int)
SCALAR_TRAITS(unsigned int)
SCALAR_TRAITS(long)
SCALAR_TRAITS(unsigned long)
SCALAR_TRAITS(long long)
SCALAR_TRAITS(unsigned long long)
SCALAR_TRAITS(wchar_t)
SCALAR_TRAITS(char16_t)
SCALAR_TRAITS(char32_t)

template<typename T, std::size_t N>
struct Tr<std::array<T, N>> {
  static void scalars(std::vector<Scalar> &l) {
    for (std::size_t i = 0; i < N; i++)
      Tr<T>::scalars(l);
  }
  static void flat(Flat &f, const std::array<T, N> &x) {
    for (auto &e : x)
      Tr<T>::flat(f, e);
  }
  static std::array<T, N> build(const i128 *&p) {
    std::array<T, N> r;
    for (auto &e : r)
      e = Tr<T>::build(p);
    return r;
  }
};
template<typename T, std::size_t N>
struct Tr<T[N]> {
  static void scalars(std::vector<Scalar> &l) {
    for (std::size_t i = 0; i < N; i++)
      Tr<T>::scalars(l);
  }
  static void flat(Flat &f, const T (&x)[N]) {
    for (auto &e : x)
      Tr<T>::flat(f, e);
  }
  // what the library gives back for an array
  static void flat(Flat &f, const std::array<T, N> &x) { Tr<std::array<T, N>>::flat(f, x); }
};

//---------------------------------------------------------------- types with a user extension

struct Pad { // padded in memory, packed on the wire
  u8 a;
  i32 b;
};
struct Nest { // holds another extended type
  Pad p;
  u16 c;
};
struct Shrink { // fewer bytes on the wire than in memory
  i64 v;
  i64 unused;
};
struct Grow { // more bytes on the wire than in memory
  i8 v;
};
struct Tight { // as large in memory as on the wire, but not in the same order
  i16 x, y;
};
struct Wide { // holds an array
  u8 tag;
  std::array<i16, 3> v;
  bool on;
};

template<>
struct upd_extension<Pad> {
  template<typename View>
  static void serialize(const Pad &x, View &v) {
    v.template set<0>(x.a);
    v.template set<1>(x.b);
  }
  static Pad unserialize(u8 a, i32 b) { return Pad{a, b}; }
};
template<>
struct upd_extension<Nest> {
  template<typename View>
  static void serialize(const Nest &x, View &v) {
    v.template set<0>(x.p);
    v.template set<1>(x.c);
  }
  static Nest unserialize(Pad p, u16 c) { return Nest{p, c}; }
};
template<>
struct upd_extension<Shrink> {
  template<typename View>
  static void serialize(const Shrink &x, View &v) {
    v.template set<0>(i16(x.v));
  }
  static Shrink unserialize(i16 v) { return Shrink{v, 0}; }
};
template<>
struct upd_extension<Grow> {
  template<typename View>
  static void serialize(const Grow &x, View &v) {
    v.template set<0>(i32(x.v));
    v.template set<1>(u32(u8(x.v)));
    v.template set<2>(x.v);
  }
  static Grow unserialize(i32, u32, i8 v) { return Grow{v}; }
};
template<>
struct upd_extension<Tight> {
  template<typename View>
  static void serialize(const Tight &x, View &v) {
    v.template set<0>(x.y);
    v.template set<1>(x.x);
  }
  static Tight unserialize(i16 y, i16 x) { return Tight{x, y}; }
};
template<>
struct upd_extension<Wide> {
  template<typename View>
  static void serialize(const Wide &x, View &v) {
    v.template set<0>(x.tag);
    v.template set<1>(x.v);
    v.template set<2>(x.on);
  }
  static Wide unserialize(u8 tag, std::array<i16, 3> v, bool on) { return Wide{tag, v, on}; }
};

template<>
struct Tr<Pad> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<u8>::scalars(l);
    Tr<i32>::scalars(l);
  }
  static void flat(Flat &f, const Pad &x) {
    f.push_back(x.a);
    f.push_back(x.b);
  }
  static Pad build(const i128 *&p) {
    Pad r;
    r.a = u8(*p++);
    r.b = i32(*p++);
    return r;
  }
};
template<>
struct Tr<Nest> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<Pad>::scalars(l);
    Tr<u16>::scalars(l);
  }
  static void flat(Flat &f, const Nest &x) {
    Tr<Pad>::flat(f, x.p);
    f.push_back(x.c);
  }
  static Nest build(const i128 *&p) {
    Nest r;
    r.p = Tr<Pad>::build(p);
    r.c = u16(*p++);
    return r;
  }
};
template<>
struct Tr<Shrink> {
  static void scalars(std::vector<Scalar> &l) { Tr<i16>::scalars(l); }
  static void flat(Flat &f, const Shrink &x) { f.push_back(x.v); }
  static Shrink build(const i128 *&p) {
    Shrink r;
    r.v = i64(*p++);
    r.unused = -1;
    return r;
  }
};
template<>
struct Tr<Grow> {
  // The three fields hold the same number: only the last one is read back
  static void scalars(std::vector<Scalar> &l) {
    Tr<i32>::scalars(l);
    Tr<u32>::scalars(l);
    Tr<i8>::scalars(l);
  }
  static void flat(Flat &f, const Grow &x) {
    f.push_back(x.v);
    f.push_back(u8(x.v));
    f.push_back(x.v);
  }
  static Grow build(const i128 *&p) {
    p += 2;
    return Grow{i8(*p++)};
  }
};
template<>
struct Tr<Tight> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<i16>::scalars(l);
    Tr<i16>::scalars(l);
  }
  static void flat(Flat &f, const Tight &x) {
    f.push_back(x.y);
    f.push_back(x.x);
  }
  static Tight build(const i128 *&p) {
    Tight r;
    r.y = i16(*p++);
    r.x = i16(*p++);
    return r;
  }
};
template<>
struct Tr<Wide> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<u8>::scalars(l);
    Tr<std::array<i16, 3>>::scalars(l);
    Tr<bool>::scalars(l);
  }
  static void flat(Flat &f, const Wide &x) {
    f.push_back(x.tag);
    Tr<std::array<i16, 3>>::flat(f, x.v);
    f.push_back(x.on);
  }
  static Wide build(const i128 *&p) {
    Wide r;
    r.tag = u8(*p++);
    r.v = Tr<std::array<i16, 3>>::build(p);
    r.on = *p++ != 0;
    return r;
  }
};

//---------------------------------------------------------------- more types with a user extension

enum class Color : u8 { RED, GREEN = 7, BLUE = 200 };
struct Text { // owns memory
  std::string s;
  Text() {}
  explicit Text(const std::string &s) : s(s) {}
};
struct Flip { // fields in another order, and of mixed signedness
  i64 a;
  u16 b;
  bool c;
  char d;
};
typedef std::array<char, 6> chars6;

template<>
struct upd_extension<Color> {
  template<typename View>
  static void serialize(const Color &x, View &v) {
    v.template set<0>(u16(x));
  }
  static Color unserialize(u16 x) { return Color(u8(x)); }
};
template<>
struct upd_extension<Text> {
  template<typename View>
  static void serialize(const Text &x, View &v) {
    chars6 c{};
    std::copy(x.s.begin(), x.s.end(), c.begin());
    v.template set<1>(c);
    v.template set<0>(u8(x.s.size()));
  }
  static Text unserialize(u8 n, chars6 c) { return Text(std::string(c.begin(), c.begin() + (n > 6 ? 6 : n))); }
};
template<>
struct upd_extension<Flip> {
  template<typename View>
  static void serialize(const Flip &x, View &v) {
    v.template set<3>(x.a);
    v.template set<0>(x.d);
    v.template set<2>(x.b);
    v.template set<1>(x.c);
  }
  static Flip unserialize(char d, bool c, u16 b, i64 a) { return Flip{a, b, c, d}; }
};

template<>
struct Tr<Color> {
  static void scalars(std::vector<Scalar> &l) { Tr<u16>::scalars(l); }
  static void flat(Flat &f, const Color &x) { f.push_back(u8(x)); }
  static Color build(const i128 *&p) { return Color(u8(*p++)); }
};
template<>
struct Tr<Text> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<u8>::scalars(l);
    Tr<chars6>::scalars(l);
  }
  static void flat(Flat &f, const Text &x) {
    chars6 c{};
    std::copy(x.s.begin(), x.s.end(), c.begin());
    f.push_back(i128(x.s.size()));
    Tr<chars6>::flat(f, c);
  }
  static Text build(const i128 *&p) {
    const i128 n = *p++;
    const chars6 c = Tr<chars6>::build(p);
    return Text(std::string(c.begin(), c.begin() + (n > 6 ? 6 : n < 0 ? 0 : long(n))));
  }
};
template<>
struct Tr<Flip> {
  static void scalars(std::vector<Scalar> &l) {
    Tr<char>::scalars(l);
    Tr<bool>::scalars(l);
    Tr<u16>::scalars(l);
    Tr<i64>::scalars(l);
  }
  static void flat(Flat &f, const Flip &x) {
    f.push_back(x.d);
    f.push_back(x.c);
    f.push_back(x.b);
    f.push_back(x.a);
  }
  static Flip build(const i128 *&p) {
    Flip r;
    r.d = char(*p++);
    r.c = *p++ != 0;
    r.b = u16(*p++);
    r.a = i64(*p++);
    return r;
  }
};

//---------------------------------------------------------------- helpers on types

template<typename T>
struct Bare {
  typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type;
};

template<typename T>
std::vector<Scalar> scalars_of() {
  std::vector<Scalar> l;
  Tr<typename Bare<T>::type>::scalars(l);
  return l;
}
template<typename T>
Flat flat_of(const T &x) {
  Flat f;
  Tr<T>::flat(f, x);
  return f;
}

template<typename T>
struct Canon {
  typedef T type;
};
template<typename T, std::size_t N>
struct Canon<T[N]> {
  typedef std::array<T, N> type;
};

//! Make the values of a list of scalars consistent for the types that write a value several times
template<typename T>
void consistent(Flat &f) {
  typedef typename Canon<T>::type C;
  const i128 *p = f.data();
  f = flat_of<C>(Tr<C>::build(p));
}

//! What the library is expected to read back out of arbitrary bytes (identity but for types which ignore some fields)
template<typename T>
Flat decoded_as(const u8 *p, Fmt f) {
  Flat v = ref_decode(p, scalars_of<T>(), f);
  consistent<T>(v);
  return v;
}

template<upd::endianess E, upd::signed_mode S>
constexpr Fmt fmt_of() {
  return Fmt{E == upd::endianess::BIG,
             S == upd::signed_mode::SIGNED_MAGNITUDE  ? SM
             : S == upd::signed_mode::ONES_COMPLEMENT ? OC
             : S == upd::signed_mode::TWOS_COMPLEMENT ? TC
                                                      : OB};
}

#define FOR_ALL_FORMATS(DO)                                                                                            \
  DO(LITTLE, SIGNED_MAGNITUDE)                                                                                         \
  DO(LITTLE, ONES_COMPLEMENT)                                                                                          \
  DO(LITTLE, TWOS_COMPLEMENT)                                                                                          \
  DO(LITTLE, OFFSET_BINARY)                                                                                            \
  DO(BIG, SIGNED_MAGNITUDE)                                                                                            \
  DO(BIG, ONES_COMPLEMENT)                                                                                             \
  DO(BIG, TWOS_COMPLEMENT)                                                                                             \
  DO(BIG, OFFSET_BINARY)
