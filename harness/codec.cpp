// C01 / C02: every integer type x byte order x signed format against the arithmetic reference codec.
//
// Only the small functions of Ops use the library; everything that judges is common to all of the types and formats.
// With -DENCODE and / or -DDECODE, only the corresponding half is built.
#include "common.hpp"
#include "types.hpp"

#include <list>
#include <upd/tuple.hpp>

#if !defined(ENCODE) && !defined(DECODE)
#define ENCODE
#define DECODE
#endif

typedef void (*encoder)(i128 v, u8 *out);
typedef i128 (*decoder)(const u8 *in);

struct Ops {
  const char *name;
  Scalar sc;
  Fmt fmt;
  std::size_t size;
  encoder enc[5];
  decoder dec[6];
  encoder back; // for round trips
  std::string what() const { return std::string(name) + " " + fmt_name(fmt); }
};

static const char *const enc_paths[] = {"constructed", "set", "set through a pointer view", "set through a list view",
                                        "as array element"};
static const char *const dec_paths[] = {"by get", "through a const view", "through a list view", "as array element",
                                        "as invoke argument", "by free get"};

template<typename T, upd::endianess E, upd::signed_mode S>
struct Sut {
  typedef upd::tuple<E, S, T> tuple_t;

  static void put(const u8 *b, u8 *out) { std::memcpy(out, b, sizeof(T)); }
  static void enc_ctor(i128 v, u8 *out) {
    tuple_t t{static_cast<T>(v)};
    put(t.begin(), out);
  }
  static void enc_set(i128 v, u8 *out) {
    tuple_t t;
    std::memset(t.begin(), 0x5a, sizeof(T));
    t.template set<0>(static_cast<T>(v));
    put(t.begin(), out);
  }
  static void enc_view(i128 v, u8 *out) { upd::tuple_view<u8 *, E, S, T>{out}.template set<0>(static_cast<T>(v)); }
  static void enc_list(i128 v, u8 *out) {
    std::list<u8> l(sizeof(T), 0x11);
    upd::tuple_view<std::list<u8>::iterator, E, S, T>{l.begin()}.template set<0>(static_cast<T>(v));
    for (u8 b : l)
      *out++ = b;
  }
  static void enc_array(i128 v, u8 *out) {
    const T a[2] = {static_cast<T>(0), static_cast<T>(v)};
    upd::tuple<E, S, T[2]> t{a};
    put(t.begin() + sizeof(T), out);
  }
  static i128 dec_get(const u8 *in) {
    tuple_t t;
    std::memcpy(t.begin(), in, sizeof(T));
    i128 r = i128(t.template get<0>());
    return std::memcmp(t.begin(), in, sizeof(T)) ? pow2(100) : r;
  }
  static i128 dec_view(const u8 *in) { return i128(upd::tuple_view<const u8 *, E, S, T>{in}.template get<0>()); }
  static i128 dec_list(const u8 *in) {
    const std::list<u8> l(in, in + sizeof(T));
    return i128(upd::tuple_view<std::list<u8>::const_iterator, E, S, T>{l.begin()}.template get<0>());
  }
  static i128 dec_array(const u8 *in) {
    upd::tuple<E, S, T[2]> t;
    std::memcpy(t.begin() + sizeof(T), in, sizeof(T));
    return i128(t.template get<0>()[1]);
  }
  static i128 dec_invoke(const u8 *in) {
    tuple_t t;
    std::memcpy(t.begin(), in, sizeof(T));
    i128 got = -1;
    t.invoke([&](T x) { got = i128(x); });
    return got;
  }
  static i128 dec_free(const u8 *in) {
    tuple_t t;
    std::memcpy(t.begin(), in, sizeof(T));
    return i128(upd::get<0>(t));
  }

  static Ops ops(const char *name) {
    return Ops{name,
               scalars_of<T>()[0],
               fmt_of<E, S>(),
               tuple_t::size,
#ifdef ENCODE
               {enc_ctor, enc_set, enc_view, enc_list, enc_array},
#else
               {},
#endif
#ifdef DECODE
               {dec_get, dec_view, dec_list, dec_array, dec_invoke, dec_free},
#else
               {},
#endif
               enc_ctor};
  }
};

static void encode(const Ops &o, i128 v, int path) {
  const std::size_t n = o.sc.size;
  Guarded g(n);
  dirty_stack();
  undefined(g.data(), n);
  o.enc[path](v, g.data());
  observe(g.data(), n);
  st().evaluations++;
  if (!representable(v, o.sc, o.fmt)) {
    st().ev("unrepresentable values encoded"); // nothing is expected but the absence of undefined behaviour
    return;
  }
  u8 want[8];
  {
    static Bytes b;
    b.clear();
    ref_encode(b, v, o.sc, o.fmt);
    std::memcpy(want, b.data(), n);
  }
  if (std::memcmp(want, g.data(), n))
    violation("encode", strf("%s value %s %s: bytes %s, expected %s", o.what().c_str(), dec(v).c_str(), enc_paths[path],
                             hex(g.data(), n).c_str(), hex(want, n).c_str()));
  if (!g.intact())
    violation("encode", strf("%s value %s %s: wrote outside of its %zu bytes", o.what().c_str(), dec(v).c_str(),
                             enc_paths[path], n));
  st().ev("values encoded");
}

static void decode(const Ops &o, const u8 *p, int path) {
  const std::size_t n = o.sc.size;
  Guarded g(n);
  std::memcpy(g.data(), p, n);
  dirty_stack();
  const i128 got = o.dec[path](g.data()), want = ref_decode(p, o.sc, o.fmt);
  st().evaluations++;
  must_be_defined(&got, sizeof got);
  tr(u64(got));
  if (got != want)
    violation("decode", got == pow2(100) ? strf("%s: get() modified %s", o.what().c_str(), hex(p, n).c_str())
                                         : strf("%s bytes %s %s: value %s, expected %s", o.what().c_str(),
                                                hex(p, n).c_str(), dec_paths[path], dec(got).c_str(), dec(want).c_str()));
  if (!g.intact() || std::memcmp(g.data(), p, n))
    violation("decode", strf("%s bytes %s %s: modified", o.what().c_str(), hex(p, n).c_str(), dec_paths[path]));
  st().ev("byte sequences decoded");
  if (representable(got, o.sc, o.fmt)) {
    u8 b[8];
    o.back(got, b);
    const i128 again = o.dec[path](b);
    if (again != got)
      violation("roundtrip", strf("%s value %s encoded then decoded %s: %s", o.what().c_str(), dec(got).c_str(),
                                  dec_paths[path], dec(again).c_str()));
    st().ev("values round-tripped");
  }
}

static void gen_bytes(Rng &g, u8 *p, unsigned n) {
  const int kind = int(g.below(4));
  for (unsigned k = 0; k < n; k++)
    p[k] = kind == 0   ? u8(g.next())
           : kind == 1 ? (g.chance(1, 2) ? 0x00 : 0xff)
           : kind == 2 ? (g.chance(1, 2) ? 0x80 : 0x00)
                       : gen_byte(g);
}

static void run(const Ops &o, Rng g) {
  const Fmt any = {false, TC};
  const u64 n = (opt().thorough ? 200000 : 2500) * opt().scale;
  const u64 h = hash_str(o.what());
  u64 turn = 0;
  st().current = o.what();
  EXPECT(o.size == o.sc.size, "encode", "%s: size %zu", o.what().c_str(), o.size);

  if (o.enc[0]) {
    for (unsigned pass = 0; pass < (o.sc.size == 1 ? 5u : o.sc.size == 2 ? 1u : 0u); pass++) {
      for (i128 v = scalar_min(o.sc); v <= scalar_max(o.sc); v++)
        encode(o, v, int(turn++ % 5)), st().state(hash_add(h, u64(v)));
    }
    if (o.sc.size <= 2)
      st().ev("types x formats all of whose values were encoded");
    const i128 edges[] = {scalar_min(o.sc), scalar_min(o.sc) + 1, -1, 0, 1, scalar_max(o.sc) - 1, scalar_max(o.sc)};
    for (i128 v : edges)
      for (int path = 0; path < 5; path++)
        if (v >= scalar_min(o.sc) && v <= scalar_max(o.sc))
          encode(o, v, path);
    for (u64 i = 0; i < (o.sc.size > 2 ? n : n / 5); i++) {
      const i128 v = gen_value(g, o.sc, any);
      encode(o, v, int(turn++ % 5));
      st().state(hash_add(h, u64(v)));
      if (i == 7)
        st().sample(o.what() + " encode " + dec(v));
    }
  }
  if (o.dec[0]) {
    for (unsigned pass = 0; pass < (o.sc.size == 1 ? 6u : o.sc.size == 2 ? 1u : 0u); pass++)
      for (u32 b = 0; b < (o.sc.size == 1 ? 256u : 65536u); b++) {
        const u8 p[2] = {u8(b), u8(b >> 8)};
        decode(o, p, int(turn++ % 6)), st().state(hash_bytes(h, p, o.sc.size));
      }
    if (o.sc.size <= 2)
      st().ev("types x formats all of whose byte sequences were decoded");
    for (unsigned bit = 0; bit < 8 * o.sc.size; bit++)
      for (int inv = 0; inv < 2; inv++) {
        u8 p[8];
        for (unsigned k = 0; k < o.sc.size; k++)
          p[k] = u8((k == bit / 8 ? 1u << bit % 8 : 0) ^ (inv ? 0xff : 0));
        for (int path = 0; path < 6; path++)
          decode(o, p, path);
      }
    for (u64 i = 0; i < (o.sc.size > 2 ? n : n / 5); i++) {
      u8 p[8];
      gen_bytes(g, p, o.sc.size);
      decode(o, p, int(turn++ % 6));
      st().state(hash_bytes(h, p, o.sc.size));
      if (i == 7)
        st().sample(o.what() + " decode " + hex(p, o.sc.size));
    }
  }
}

template<upd::endianess E, upd::signed_mode S>
void format(Rng &g) {
#define TYPE(T) run(Sut<T, E, S>::ops(#T), Rng(g.next()));
  TYPE(bool)
  TYPE(char)
  TYPE(signed char)
  TYPE(unsigned char)
  TYPE(short)
  TYPE(unsigned short)
  TYPE(int)
  TYPE(unsigned int)
  TYPE(long)
  TYPE(unsigned long)
  TYPE(long long)
  TYPE(unsigned long long)
  TYPE(wchar_t)
  TYPE(char16_t)
  TYPE(char32_t)
}

int main(int argc, char **argv) {
  init(argc, argv);
  st().max_samples = 4;
  Rng g(opt().seed);
#define DO(E, S) format<upd::endianess::E, upd::signed_mode::S>(g);
  FOR_ALL_FORMATS(DO)
  return finish();
}
