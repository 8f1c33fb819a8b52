// Executable specification of the dispatchers, and an online checker which follows a real one operation by operation.
#pragma once

#include "world.hpp"

enum Status { LOADING = 0, DROPPED = 1, RESOLVED = 2 };
static const char *const status_names[] = {"LOADING", "DROPPED", "RESOLVED"};
inline std::string status_name(int s) { return s >= 0 && s < 3 ? status_names[s] : strf("status %d", s); }

struct Expected {
  Status status;
  int fn; // resolved callback
  Flat args;
};

//! Specification: framing of the input and content of the output
struct Model {
  const WorldDesc *w;
  bool single; // input and output share a buffer: receiving spoils a pending response
  Bytes in;    // what was received of the current packet
  Bytes out;   // last response
  std::size_t next = 0;
  bool spoiled = false;
  std::vector<int> variant;

  Model(const WorldDesc &w, bool single) : w(&w), single(single), variant(w.fns.size(), 0) {}

  std::size_t pending() const { return out.size() - next; }

  Expected put(u8 b) {
    if (single && pending())
      spoiled = true;
    in.push_back(b);
    if (in.size() < w->index_size)
      return {LOADING, -1, {}};
    const i128 index = ref_decode(in.data(), w->index_scalar(), w->fmt);
    if (index >= i128(w->fns.size())) {
      in.clear();
      return {DROPPED, -1, {}};
    }
    const FnDesc &f = w->fns[std::size_t(index)];
    if (in.size() < w->index_size + f.arg_bytes)
      return {LOADING, -1, {}};
    Expected e{RESOLVED, int(index), f.decode_args(in.data() + w->index_size, w->fmt)};
    in.clear();
    out.clear();
    next = 0;
    spoiled = false;
    return e;
  }
  void respond(const Flat &ret, int fn) {
    out = ref_encode(ret, w->fns[std::size_t(fn)].ret, w->fmt);
    next = 0;
  }
  u64 state() const {
    u64 h = hash_add(hash_add(in.size(), in.size() >= w->index_size ? in[0] : 0), in.size() >= w->index_size);
    return hash_add(hash_add(h, pending()), out.size());
  }
};

//! Abandon the current case once something went wrong
struct Abandon {};

//! Which observations count for the property being decided
inline bool counts(const std::string &kind) {
  static const std::map<std::string, std::set<std::string>> table = {
      {"C06", {"invoke", "decode", "request", "response", "pull", "status", "output", "exception"}},
      {"C07", {"invoke", "pull", "index", "output", "exception"}},
      {"C08", {"status", "pull", "invoke", "exception"}},
      {"C09", {"output", "loaded", "exception"}},
      {"C10", {"size", "pull", "output", "exception"}},
      {"C11", {"output", "loaded", "status", "invoke", "exception"}},
      {"C12", {"output", "loaded", "status", "invoke", "pull", "exception", "index"}},
      {"C13", {"output", "loaded", "reply", "exception"}},
      {"C14", {"output", "loaded", "status", "invoke", "pull", "size", "index", "exception"}},
  };
  auto it = table.find(opt().prop);
  return it == table.end() || it->second.count(kind);
}
inline void wrong(const std::string &kind, const std::string &detail) {
  if (counts(kind))
    violation(kind, detail);
  else {
    static PER_THREAD std::set<std::string> names;
    st().ev(names.insert("other: " + kind).first->c_str());
  }
  throw Abandon{};
}
#define MUST(cond, kind, ...)                                                                                          \
  do {                                                                                                                 \
    if (!(cond))                                                                                                       \
      wrong(kind, strf(__VA_ARGS__));                                                                                  \
  } while (0)

//! A real dispatcher and its specification
struct Monitor {
  const World &world;
  const WorldDesc &w;
  DispPtr disp;
  Model m;
  std::size_t seen; // records of the call log already judged
  std::string history;
  u64 hist_hash = 0;

  Monitor(const World &world, Kind k, bool any, u8 fill = 0xa5)
      : world(world), w(world.desc), disp(world.disp(k, any, fill)), m(w, k == SINGLE), seen(cw().log.size()) {
    history = w.name + " " + disp->name() + ":";
    st().current = history;
  }

  //! Another dispatcher in the same state
  Monitor(const Monitor &o, DispPtr d) : world(o.world), w(o.w), disp(std::move(d)), m(o.m), seen(o.seen), history(o.history), hist_hash(o.hist_hash) {}

  void note(const std::string &s) {
    hist_hash = hash_add(hist_hash, hash_str(s));
    if (history.size() < 3000)
      history += " " + s;
    else
      history = "..." + history.substr(1500) + " " + s;
    st().current = history;
  }

  //! Exactly the given invocations happened since the last call
  void check_calls(const Expected &e, bool threw) {
    auto &log = cw().log;
    const std::size_t n = log.size() - seen;
    const bool called = e.fn >= 0;
    seen = log.size();
    MUST(n == (called ? 1u : 0u), "invoke", "%zu callbacks were invoked instead of %d", n, called ? 1 : 0);
    if (!called) {
      MUST(!threw, "exception", "an exception came out of nowhere");
      return;
    }
    const CallRec r = log.back();
    MUST(r.id == e.fn, "invoke", "callback %d was invoked instead of %d", r.id, e.fn);
    MUST(r.variant == m.variant[std::size_t(e.fn)], "invoke", "variant %d of callback %d was invoked instead of %d",
         r.variant, r.id, m.variant[std::size_t(e.fn)]);
    MUST(r.args == e.args, "invoke", "callback %d was given %s instead of %s", r.id, dec(r.args).c_str(),
         dec(e.args).c_str());
    MUST(r.threw == threw, "exception", r.threw ? "the exception of the callback was swallowed"
                                                : "an exception came out of nowhere");
    if (!r.threw)
      m.respond(r.ret, e.fn);
    st().ev("callbacks invoked");
    if (log.size() > 500)
      log.clear(), seen = 0;
  }
  void check_loaded() {
    if (disp->kind == PLAIN)
      return;
    const bool l = disp->loaded();
    MUST(l == (m.pending() > 0), "loaded", "is_loaded is %d with %zu bytes of response left", l, m.pending());
  }
  void after(const char *op, u64 x = 0) {
    check_loaded();
    st().evaluations++;
    st().state(hash_add(hash_add(hash_add(hash_str(w.name), u64(disp->kind) * 2 + disp->any), m.state()),
                        hash_add(hash_str(op), x)));
  }

  // --- buffered
  int put(u8 b) {
    note(strf("put(%02x)", b));
    const Expected e = m.put(b);
    bool threw = false;
    int s = RESOLVED;
    try {
      s = disp->put(b);
    } catch (CallbackError &) {
      threw = true;
    }
    if (!threw)
      MUST(s == e.status, "status", "put returned %s instead of %s", status_name(s).c_str(), status_names[e.status]);
    check_calls(e, threw);
    st().ev(e.status == LOADING ? "put: loading" : e.status == DROPPED ? "put: dropped" : threw ? "put: callback threw" : "put: resolved");
    after("put", hash_add(e.status, threw));
    return e.status;
  }
  //! Blocking read out of the given bytes, which are as many as needed at least; returns how many were consumed
  std::size_t read(const u8 *p, std::size_t n, int form, long throw_at = -1, bool process = false, Dst *dst = nullptr) {
    // what should happen
    Expected e{LOADING, -1, {}};
    std::size_t used = 0;
    const bool cut = throw_at >= 0;
    while (e.status == LOADING && used < n && !(cut && long(used) == throw_at))
      e = m.put(p[used++]);
    const bool source_throws = cut && e.status == LOADING;
    note(strf("%s%s(%s%s)", process ? "process" : "read", form ? "<<" : "", hex(p, used).c_str(), source_throws ? ", then the source throws" : ""));
    Src src(p, n, throw_at);
    bool threw = false, stopped = false, sink_threw = false;
    int s = -1;
    try {
      s = process ? int(disp->process(src, *dst)) : disp->read(src, form);
    } catch (CallbackError &) {
      threw = true;
    } catch (SourceError &) {
      stopped = true;
    } catch (SinkError &) {
      sink_threw = true;
    } catch (Overrun &) {
      wrong("pull", strf("the source was read past its %zu bytes, of which %zu make the packet", n, used));
    } catch (Runaway &) {
      wrong("output", "thousands of bytes were written");
    }
    MUST(src.pulled == used, "pull", "%zu bytes were read instead of %zu", src.pulled, used);
    MUST(stopped == source_throws, "exception", stopped ? "the source was read too far" : "the exception of the source was swallowed");
    check_calls(e, threw);
    if (!threw && !stopped && !sink_threw)
      MUST(s == e.status, "status", "%s returned %s instead of %s", process ? "operator()" : "read_from",
           status_name(s).c_str(), status_names[e.status]);
    if (process && dst && !threw && !stopped) {
      if (e.status == RESOLVED) {
        MUST(dst->out.size() <= m.out.size() && (sink_threw || dst->out.size() == m.out.size()), "output",
             "%zu bytes were written instead of %zu", dst->out.size(), m.out.size());
        const Bytes want(m.out.begin(), m.out.begin() + long(dst->out.size()));
        MUST(dst->out == want, "output", "%s was written instead of %s", hex(dst->out).c_str(), hex(m.out).c_str());
        m.next = dst->out.size();
      } else
        MUST(dst->out.empty(), "output", "%s was written though nothing was resolved", hex(dst->out).c_str());
    }
    st().ev(stopped ? "read: source threw" : e.status == DROPPED ? "read: dropped" : threw ? "read: callback threw" : "read: resolved");
    after(process ? "process" : "read", hash_add(e.status, hash_add(used, threw * 2 + stopped)));
    return used;
  }
  u8 get() {
    note("get");
    const bool empty = m.pending() == 0;
    const u8 b = disp->get();
    if (!empty) {
      MUST(m.spoiled || b == m.out[m.next], "output", "byte %zu of the response is %02x instead of %02x", m.next, b,
           m.out[m.next]);
      m.next++;
    }
    st().ev(empty ? "get: empty" : "get: byte");
    check_calls({LOADING, -1, {}}, false);
    after("get", empty);
    return b;
  }
  void write(int form, long throw_at = -1) {
    note(strf("write%s%s", form ? ">>" : "", throw_at >= 0 ? strf("(the sink throws after %ld)", throw_at).c_str() : ""));
    Dst d(throw_at);
    bool threw = false;
    try {
      disp->write(d, form);
    } catch (SinkError &) {
      threw = true;
    } catch (Runaway &) {
      wrong("output", "thousands of bytes were written");
    }
    const std::size_t want = throw_at > 0 && std::size_t(throw_at) <= m.pending() ? std::size_t(throw_at) : m.pending();
    MUST(threw == (throw_at > 0 && std::size_t(throw_at) <= m.pending()), "exception", "the exception of the sink was %s", threw ? "unexpected" : "swallowed");
    MUST(d.out.size() == want, "output", "%zu bytes were written instead of %zu", d.out.size(), want);
    const Bytes w(m.out.begin() + long(m.next), m.out.begin() + long(m.next + want));
    MUST(m.spoiled || d.out == w, "output", "%s was written instead of %s", hex(d.out).c_str(), hex(w).c_str());
    m.next += want;
    st().ev(threw ? "write: sink threw" : want ? "write: bytes" : "write: empty");
    check_calls({LOADING, -1, {}}, false);
    after("write", hash_add(want, threw));
  }
#ifdef WITH_REPLY
  void reply(std::size_t target, int form) {
    const Target &t = targets()[target];
    note(strf("reply(buffer of %zu)", t.size));
    Dst d;
    bool r;
    try {
      r = disp->reply(target, d, form);
    } catch (Runaway &) {
      wrong("reply", "thousands of bytes were sent");
    }
    Bytes sent = t.index;
    sent.insert(sent.end(), m.out.begin(), m.out.end());
    sent.resize(t.index.size() + t.size, 0);
    const bool expected = m.pending() > 0 && m.next == 0 && m.out.size() <= t.size;
    const bool either = m.out.empty(); // no response at all: an empty buffer may be sent, or nothing
    MUST(r == expected || either, "reply", "reply returned %d with a response of %zu bytes, %zu of which read, and a buffer of %zu", r, m.out.size(), m.next, t.size);
    if (r) {
      if (!m.spoiled)
        MUST(d.out == sent, "reply", "%s was sent instead of %s", hex(d.out).c_str(), hex(sent).c_str());
      m.next = m.out.size();
    } else
      MUST(d.out.empty(), "reply", "%s was sent by a reply which failed", hex(d.out).c_str());
    st().ev(either ? "reply: no response" : r ? "reply: sent" : m.next ? m.pending() ? "reply: partially read" : "reply: already read" : "reply: does not fit");
    check_calls({LOADING, -1, {}}, false);
    after("reply", hash_add(target, r));
  }
#endif
  // --- plain
  u64 process_plain(const u8 *p, std::size_t n, Bytes *response = nullptr) {
    Expected e{LOADING, -1, {}};
    std::size_t used = 0;
    while (e.status == LOADING && used < n)
      e = m.put(p[used++]);
    note(strf("process(%s)", hex(p, used).c_str()));
    Src src(p, n);
    Dst dst;
    bool threw = false;
    u64 index = 0;
    try {
      index = disp->process(src, dst);
    } catch (CallbackError &) {
      threw = true;
    } catch (Overrun &) {
      wrong("pull", strf("the source was read past its %zu bytes, of which %zu make the request", n, used));
    } catch (Runaway &) {
      wrong("output", "thousands of bytes were written");
    }
    MUST(src.pulled == used, "pull", "%zu bytes were read instead of %zu", src.pulled, used);
    check_calls(e, threw);
    const u64 want = u64(ref_decode(p, w.index_scalar(), w.fmt));
    if (!threw)
      MUST(index == want, "index", "index %llu was returned instead of %llu", (unsigned long long)index, (unsigned long long)want);
    MUST(dst.out == m.out || (e.status != RESOLVED && dst.out.empty()), "output", "%s was written instead of %s",
         hex(dst.out).c_str(), hex(m.out).c_str());
    if (e.status == DROPPED)
      MUST(dst.out.empty(), "output", "%s was written for an unknown index", hex(dst.out).c_str());
    m.next = m.out.size();
    st().ev(e.status == DROPPED ? "process: unknown index" : threw ? "process: callback threw" : "process: resolved");
    if (response)
      *response = dst.out;
    after("process", hash_add(want, threw));
    return used;
  }
  std::size_t action_plain(const u8 *p, std::size_t n) { // through get_index or get_action
    Expected e{LOADING, -1, {}};
    std::size_t used = 0;
    while (e.status == LOADING && used < n)
      e = m.put(p[used++]);
    note(strf("get_action(%s)", hex(p, used).c_str()));
    {
      Src src(p, n);
      const u64 i = disp->get_index(src), want = u64(ref_decode(p, w.index_scalar(), w.fmt));
      MUST(i == want && src.pulled == w.index_size, "index", "get_index returned %llu after %zu bytes instead of %llu",
           (unsigned long long)i, src.pulled, (unsigned long long)want);
    }
    Src src(p, n);
    Dst dst;
    bool found = false, threw = false;
    try {
      found = disp->get_action_and_call(src, dst);
    } catch (CallbackError &) {
      threw = found = true;
    } catch (Overrun &) {
      wrong("pull", strf("the source was read past its %zu bytes, of which %zu make the request", n, used));
    } catch (Runaway &) {
      wrong("output", "thousands of bytes were written");
    }
    MUST(found == (e.status == RESOLVED), "index", "get_action %s an action", found ? "found" : "did not find");
    MUST(src.pulled == used, "pull", "%zu bytes were read instead of %zu", src.pulled, used);
    check_calls(e, threw);
    if (e.status == RESOLVED)
      MUST(dst.out == m.out, "output", "%s was written instead of %s", hex(dst.out).c_str(), hex(m.out).c_str());
    m.next = m.out.size();
    st().ev("get_action");
    after("get_action", u64(found));
    return used;
  }
  // --- any kind
  void replace(std::size_t fn, int variant) {
    note(strf("replace(%zu, %d)", fn, variant));
    disp->replace(fn, variant);
    m.variant[fn] = variant;
    check_calls({LOADING, -1, {}}, false);
    st().ev(variant > 2 ? "replace: functor" : "replace: function");
    after("replace", hash_add(fn, variant > 2));
  }
  //! Call an action by its index, aside of what the dispatcher receives and sends
  void call_action(Rng &g, std::size_t fn) {
    const FnDesc &f = w.fns[fn];
    Bytes b;
    for (std::size_t i = 0; i < f.arg_bytes + 3; i++)
      b.push_back(gen_byte(g));
    note(strf("action %zu(%s)", fn, hex(b).c_str()));
    Src src(b);
    Dst dst;
    bool threw = false;
    try {
      disp->call_action(fn, src, dst);
    } catch (CallbackError &) {
      threw = true;
    } catch (Overrun &) {
      wrong("pull", "an action read past its arguments");
    }
    const Bytes pending = m.out;
    const std::size_t next = m.next;
    check_calls({RESOLVED, int(fn), f.decode_args(b.data(), w.fmt)}, threw);
    MUST(src.pulled == f.arg_bytes, "pull", "%zu bytes were read by the action instead of %zu", src.pulled, f.arg_bytes);
    if (!threw)
      MUST(dst.out == m.out, "output", "%s was written by the action instead of %s", hex(dst.out).c_str(), hex(m.out).c_str());
    m.out = pending;
    m.next = next;
    st().ev("action called");
    after("action", fn);
  }
  void check_sizes() {
    for (std::size_t i = 0; i < w.fns.size(); i++) {
      const std::size_t in = disp->input_size(i), out = disp->output_size(i);
      MUST(in == w.fns[i].arg_bytes, "size", "input_size of %zu is %zu instead of %zu", i, in, w.fns[i].arg_bytes);
      MUST(out == w.fns[i].ret_bytes, "size", "output_size of %zu is %zu instead of %zu", i, out, w.fns[i].ret_bytes);
      st().ev("action sizes compared");
    }
    const long ib = disp->input_buffer(), ob = disp->output_buffer();
    const long req = long(w.max_request()), res = long(w.max_response());
    if (disp->kind == SINGLE) {
      MUST(ib == (req > res ? req : res), "size", "buffer_size is %ld, the largest request takes %ld and the largest response %ld", ib, req, res);
    } else if (disp->kind == DOUBLE) {
      MUST(ib == req, "size", "input_buffer_size is %ld instead of %ld", ib, req);
      MUST(ob == res, "size", "output_buffer_size is %ld instead of %ld", ob, res);
    }
    st().ev("buffer sizes compared");
  }
};

//! Generator of byte streams: requests, unknown indices and noise
struct Wire {
  const WorldDesc &w;
  Rng &g;
  Bytes b;
  std::size_t pos = 0;
  unsigned noise; // out of 16
  Wire(const WorldDesc &w, Rng &g, unsigned noise) : w(w), g(g), noise(noise) {}

  std::size_t left() const { return b.size() - pos; }
  const u8 *data() const { return b.data() + pos; }
  void take(std::size_t n) {
    pos += n;
    if (pos > 4096) {
      b.erase(b.begin(), b.begin() + long(pos));
      pos = 0;
    }
  }
  std::size_t pick() {
    const std::size_t n = w.fns.size();
    if (n < 20)
      return g.below(n);
    switch (g.below(4)) {
    case 0:
      return g.below(3);
    case 1:
      return n - 1 - g.below(3);
    case 2:
      return n > 258 ? 253 + g.below(6) : g.below(n);
    default:
      return g.below(n);
    }
  }
  static Bytes raw_index(const WorldDesc &w, u64 i) {
    Bytes b;
    ref_encode(b, i128(i), w.index_scalar(), w.fmt);
    return b;
  }
  void push(const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
  Bytes request(std::size_t fn) {
    Bytes r = raw_index(w, fn);
    const FnDesc &f = w.fns[fn];
    if (g.chance(1, 3)) // whatever bytes
      for (std::size_t i = 0; i < f.arg_bytes; i++)
        r.push_back(gen_byte(g));
    else {
      Flat v = gen_values(g, f.args, w.fmt);
      const Bytes a = ref_encode(v, f.args, w.fmt);
      r.insert(r.end(), a.begin(), a.end());
    }
    return r;
  }
  void extend() {
    if (g.chance(noise, 16)) {
      if (g.chance(1, 2)) { // unknown index, just after the last or far
        const u64 n = w.fns.size(), top = w.index_size == 1 ? 256 : 65536;
        if (n < top) {
          push(raw_index(w, g.chance(1, 3) ? n : g.chance(1, 2) ? top - 1 : n + g.below(top - n)));
          return;
        }
      }
      const u64 k = 1 + g.below(4);
      for (u64 i = 0; i < k; i++)
        b.push_back(g.chance(1, 2) ? u8(g.below(w.fns.size() + 2)) : gen_byte(g));
    } else
      push(request(pick()));
  }
  void need(std::size_t n) {
    while (left() < n)
      extend();
  }
  u8 next() {
    need(1);
    const u8 x = *data();
    take(1);
    return x;
  }
};
