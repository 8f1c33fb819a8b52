// C06 - C14: dispatchers of every kind followed by the executable specification of model.hpp.
#include "model.hpp"

static World *W;

static const Kind buffered[] = {SINGLE, DOUBLE, CUSTOM};

#ifdef NO_ANY
enum { POLICIES = 1 };
#else
enum { POLICIES = 2 };
#endif
#ifndef KINDS
#define KINDS 3 /* SINGLE, DOUBLE, CUSTOM */
#endif

//! A packet is available in the wire: returns what blocking read is going to take, at least
static void whole_packets(Wire &wire) { wire.need(2 * W->desc.max_request() + 4); }

//---------------------------------------------------------------- plain dispatcher (C07, and in others)

static void run_plain(Rng g, bool any, unsigned steps, unsigned noise, bool throwing, bool replacing) {
  Monitor mon(*W, PLAIN, any, u8(g.next()));
  Wire wire(W->desc, g, noise);
  int functor = 100;
  for (unsigned i = 0; i < steps; i++) {
    whole_packets(wire);
    cw().throw_in = throwing && g.chance(1, 3) ? 0 : -1;
    if (replacing && g.chance(1, 3)) {
      const std::size_t fn = wire.pick();
      if (mon.disp->replaceable(fn))
        mon.replace(fn, any && g.chance(1, 2) ? functor++ : int(g.below(3)));
    }
    // The stream is cut at different places, always after the end of the packet
    wire.take(g.chance(1, 4) ? mon.action_plain(wire.data(), wire.left()) : mon.process_plain(wire.data(), wire.left()));
    if (g.chance(1, 10))
      mon.call_action(g, wire.pick());
    cw().throw_in = -1;
  }
  st().ev("histories on plain dispatchers");
  if (st().wants_sample() && g.chance(1, 3))
    st().sample(mon.history.substr(0, 300));
}
//! A packet alone, without a byte more
static void run_exact(Rng g, bool any) {
  Monitor mon(*W, PLAIN, any, u8(g.next()));
  Wire wire(W->desc, g, 0);
  for (int i = 0; i < 4; i++) {
    const Bytes b = g.chance(3, 4) ? wire.request(wire.pick()) : Wire::raw_index(W->desc, W->desc.fns.size());
    if (mon.m.in.empty() && ref_decode(b.data(), W->desc.index_scalar(), W->desc.fmt) <= i128(W->desc.fns.size()))
      mon.process_plain(b.data(), b.size());
  }
}

//---------------------------------------------------------------- buffered dispatchers

struct Mix { // weights of the operations
  unsigned put, read, process, get, write, loaded, replace, action;
  unsigned noise;
  bool source_throws, sink_throws, callback_throws;
  bool drain_single; // read the whole response before receiving again in single-buffered dispatchers
};

static void run_mix(Rng g, Kind k, bool any, unsigned steps, const Mix &x) {
  Monitor mon(*W, k, any, u8(g.next()));
  Wire wire(W->desc, g, x.noise);
  int functor = 100;
  const unsigned total = x.put + x.read + x.process + x.get + x.write + x.loaded + x.replace + x.action;
  for (unsigned i = 0; i < steps; i++) {
    unsigned r = unsigned(g.below(total));
    const bool receive = r < x.put + x.read + x.process;
    if (receive && k == SINGLE && x.drain_single)
      while (mon.m.pending())
        g.chance(1, 2) ? void(mon.get()) : mon.write(int(g.below(2)));
    cw().throw_in = x.callback_throws && g.chance(1, 3) ? 0 : -1;
    const long cut = x.source_throws && g.chance(1, 2) ? long(g.below(W->desc.max_request() + 2)) : -1;
    const std::size_t out = mon.m.pending();
    const long sink_cut = x.sink_throws && g.chance(1, 2) ? 1 + long(g.below(out + 2)) : -1;
    if (r < x.put) {
      // often a run of bytes
      const u64 n = g.chance(1, 2) ? 1 : 1 + g.below(8);
      for (u64 j = 0; j < n; j++)
        if (mon.put(wire.next()) == RESOLVED)
          break;
    } else if ((r -= x.put) < x.read) {
      whole_packets(wire);
      wire.take(mon.read(wire.data(), wire.left(), int(g.below(2)), cut));
    } else if ((r -= x.read) < x.process) {
      whole_packets(wire);
      Dst d(x.sink_throws && g.chance(1, 2) ? 1 + long(g.below(W->desc.max_response() + 1)) : -1);
      wire.take(mon.read(wire.data(), wire.left(), 0, cut, true, &d));
    } else if ((r -= x.process) < x.get) {
      const u64 n = 1 + g.below(4);
      for (u64 j = 0; j < n; j++)
        mon.get();
    } else if ((r -= x.get) < x.write)
      mon.write(int(g.below(2)), sink_cut);
    else if ((r -= x.write) < x.loaded)
      mon.check_loaded();
    else if ((r -= x.loaded) < x.replace) {
      const std::size_t fn = wire.pick();
      if (mon.disp->replaceable(fn))
        mon.replace(fn, any && g.chance(1, 2) ? functor++ : int(g.below(3)));
    } else
      mon.call_action(g, wire.pick());
    cw().throw_in = -1;
  }
  // it still works
  while (!mon.m.in.empty() || mon.m.pending()) {
    while (mon.m.pending())
      mon.get();
    if (!mon.m.in.empty())
      mon.put(wire.next());
  }
  whole_packets(wire);
  const Bytes last = wire.request(wire.pick());
  Dst d;
  mon.read(last.data(), last.size(), 0, -1, true, &d);
  st().ev("histories on buffered dispatchers");
  if (st().wants_sample() && g.chance(1, 7))
    st().sample(mon.history.substr(0, 300));
}

//---------------------------------------------------------------- C06: keys against dispatchers

static void run_rpc(Rng g, Kind k, bool any, unsigned steps) {
  Monitor mon(*W, k, any, u8(g.next()));
  Wire wire(W->desc, g, 0);
  for (unsigned i = 0; i < steps; i++) {
    const std::size_t fn = wire.pick();
    const FnDesc &f = W->desc.fns[fn];
    Flat args = gen_values(g, f.args, W->desc.fmt);
    f.norm_args(args);
    mon.note(strf("call %zu%s", fn, dec(args).c_str()));
    const Bytes req = f.request(args, int(g.below(3)));
    MUST(req.size() == W->desc.index_size + f.arg_bytes, "request", "the request of %zu takes %zu bytes instead of %zu", fn, req.size(), W->desc.index_size + f.arg_bytes);
    Bytes res;
    const std::size_t before = cw().log.size();
    if (k == PLAIN)
      mon.process_plain(req.data(), req.size(), &res);
    else {
      switch (g.below(3)) {
      case 0: {
        Dst d;
        mon.read(req.data(), req.size(), 0, -1, true, &d);
        res = d.out;
        break;
      }
      case 1:
        for (u8 b : req)
          mon.put(b);
        while (mon.disp->loaded() && res.size() < 200000)
          res.push_back(mon.get());
        break;
      default: {
        mon.read(req.data(), req.size(), 1);
        Dst d;
        const Bytes want(mon.m.out);
        const std::size_t n = mon.m.pending();
        (void)n;
        mon.disp->write(d, int(g.below(2)));
        mon.m.next = mon.m.out.size();
        res = d.out;
        MUST(res == want, "output", "%s was written instead of %s", hex(res).c_str(), hex(want).c_str());
      }
      }
    }
    if (cw().log.size() == 0 || cw().log.size() < before)
      continue; // the log was trimmed
    const CallRec r = cw().log.back();
    MUST(r.id == int(fn), "invoke", "callback %d was invoked instead of %zu", r.id, fn);
    MUST(r.args == args, "invoke", "callback %zu was given %s instead of %s", fn, dec(r.args).c_str(), dec(args).c_str());
    if (f.decode) {
      Src src(res);
      Flat got;
      try {
        got = f.decode(src);
      } catch (Overrun &) {
        wrong("decode", strf("decoding the response of %zu reads more than its %zu bytes", fn, res.size()));
      }
      MUST(got == r.ret, "decode", "the response of %zu decodes to %s, the callback returned %s", fn, dec(got).c_str(), dec(r.ret).c_str());
      MUST(src.pulled == res.size(), "decode", "decoding the response of %zu reads %zu bytes out of %zu", fn, src.pulled, res.size());
      st().ev("responses decoded");
    }
  }
  st().ev("call sequences");
  if (st().wants_sample() && g.chance(1, 3))
    st().sample(mon.history.substr(0, 300));
}

//---------------------------------------------------------------- C11: interleavings

//! Every way to interleave the bytes of a request with the reading of the pending response (or many of them)
static void run_interleavings(Rng g, Kind k, bool any, u64 limit) {
  Wire wire(W->desc, g, 0);
  for (std::size_t a = 0; a < W->desc.fns.size() && a < 8; a++)
    for (std::size_t b = 0; b < W->desc.fns.size() && b < 8; b++) {
      if (!W->desc.fns[a].ret_bytes)
        continue;
      const Bytes first = wire.request(a);
      Bytes second = wire.request(b);
      if (g.chance(1, 4)) { // dropped packets in front
        const Bytes bad = Wire::raw_index(W->desc, W->desc.fns.size());
        second.insert(second.begin(), bad.begin(), bad.end());
      }
      const unsigned n = unsigned(second.size()), m = unsigned(W->desc.fns[a].ret_bytes);
      // C(n + m, m), saturating
      u64 count = 1;
      for (unsigned i = 1; i <= m && count < (1u << 30); i++)
        count = count * (n + i) / i;
      const bool all = count <= limit;
      const u64 some = n + m > 200 ? limit / 100 + 1 : limit / 4 + 1;
      std::vector<bool> pick(n + m, false); // true: get
      for (unsigned i = 0; i < m; i++)
        pick[i + n] = true;
      for (u64 it = 0; it < (all ? count : some); it++) {
        if (!all)
          for (unsigned i = n + m - 1; i > 0; i--) {
            const unsigned j = unsigned(g.below(i + 1));
            const bool t = pick[i];
            pick[i] = pick[j];
            pick[j] = t;
          }
        Monitor mon(*W, k, any, 0xee);
        for (u8 x : first)
          mon.put(x);
        std::size_t p = 0;
        for (unsigned i = 0; i < n + m; i++)
          if (pick[i])
            mon.get();
          else
            mon.put(second[p++]);
        while (mon.m.pending())
          mon.get();
        mon.get();
        st().state(mon.hist_hash);
        st().ev("interleavings run");
        if (all)
          std::next_permutation(pick.begin(), pick.end());
      }
      st().ev(all ? "request x response pairs interleaved in every way" : "request x response pairs interleaved at random");
    }
}

//---------------------------------------------------------------- C13: replies

#ifdef WITH_REPLY
static void run_reply(Rng g, Kind k, bool any, unsigned steps) {
  Monitor mon(*W, k, any, u8(g.next()));
  Wire wire(W->desc, g, 2);
  if (g.chance(1, 2))
    mon.reply(g.below(targets().size()), 0);
  for (unsigned i = 0; i < steps; i++) {
    whole_packets(wire);
    while (mon.m.pending() && k == SINGLE) // receiving would spoil it
      mon.write(0);
    wire.take(mon.read(wire.data(), wire.left(), 0));
    if (k != SINGLE && g.chance(1, 3)) // and some of the next packet
      for (u64 n = g.below(3); n > 0; n--)
        if (mon.put(wire.next()) != LOADING)
          break;
    const u64 gets = g.chance(1, 2) ? 0 : g.below(mon.m.out.size() + 2);
    for (u64 j = 0; j < gets; j++)
      mon.get();
    for (u64 n = g.below(3); n > 0; n--) {
      // a target around the size of the response, often
      std::size_t t = g.below(targets().size());
      if (g.chance(1, 2))
        for (std::size_t j = 0; j < targets().size(); j++)
          if (targets()[j].size == mon.m.out.size())
            t = j;
      mon.reply(t, int(g.below(2)));
      if (g.chance(1, 4))
        mon.get();
    }
    if (g.chance(1, 2))
      while (mon.m.pending())
        mon.get();
  }
  st().ev("histories with replies");
  if (st().wants_sample() && g.chance(1, 3))
    st().sample(mon.history.substr(0, 300));
}
#endif

//---------------------------------------------------------------- C14: several dispatchers of the same keyring

static void run_siblings(Rng g, unsigned steps) {
  std::vector<std::unique_ptr<Monitor>> ms;
  for (int i = 0; i < 4; i++) {
    const Kind k = KINDS == 1 ? DOUBLE : g.chance(1, 4) ? PLAIN : buffered[g.below(3)];
    const bool any = POLICIES == 2 && g.chance(1, 2);
    ms.emplace_back(new Monitor(*W, k, any, u8(g.next())));
  }
  Wire wire(W->desc, g, 2);
  int functor = 1000;
  for (unsigned i = 0; i < steps; i++) {
    Monitor &mon = *ms[g.below(ms.size())];
    mon.seen = cw().log.size();
    const std::size_t fn = wire.pick();
    switch (g.below(4)) {
    case 0:
      if (mon.disp->replaceable(fn))
        mon.replace(fn, mon.disp->any && g.chance(1, 2) ? functor++ : int(g.below(3)));
      break;
    case 1:
      if (mon.disp->kind != PLAIN) {
        mon.put(wire.next());
        break;
      }
      // fall through
    case 2: {
      while (mon.disp->kind != PLAIN && !mon.m.in.empty())
        mon.put(wire.next());
      const Bytes r = wire.request(fn);
      if (mon.disp->kind == PLAIN)
        mon.process_plain(r.data(), r.size());
      else {
        Dst d;
        mon.read(r.data(), r.size(), 0, -1, true, &d);
      }
      break;
    }
    default:
      if (mon.disp->kind != PLAIN)
        mon.get();
    }
  }
  st().ev("histories on sibling dispatchers");
}

//---------------------------------------------------------------- C27: copies and moves at any moment

#ifdef VALUES
static void run_values(Rng g, Kind k, bool any, unsigned steps) {
  std::vector<std::unique_ptr<Monitor>> ms;
  ms.emplace_back(new Monitor(*W, k, any, u8(g.next())));
  Wire wire(W->desc, g, 2);
  int functor = 1000;
  for (unsigned i = 0; i < steps; i++) {
    const std::size_t at = g.below(ms.size());
    Monitor &mon = *ms[at];
    mon.seen = cw().log.size();
    st().current = mon.history;
    const std::size_t fn = wire.pick();
    const u8 fill = u8(g.next());
    const int how = int(g.below(18));
    switch (g.below(8)) {
    case 0:
      mon.note(strf("relocate(%d)", how));
      if (mon.disp->relocate(how, fill))
        st().ev("dispatchers copied or moved");
      mon.after("relocate", u64(how % 6));
      break;
    case 1:
      if (ms.size() > 3 || g.chance(1, 8)) {
        if (ms.size() > 1)
          ms.erase(ms.begin() + long(at));
        break;
      }
      mon.note(strf("fork(%d)", how));
      if (IDisp *d = mon.disp->fork(how, fill)) {
        std::unique_ptr<Monitor> n(new Monitor(mon, DispPtr(d)));
        n->note("(copy)");
        n->after("fork");
        ms.push_back(std::move(n));
        st().ev("copies which diverge");
      }
      break;
    case 2:
      if (mon.disp->replaceable(fn))
        mon.replace(fn, any && g.chance(1, 2) ? functor++ : int(g.below(3)));
      break;
    case 3:
      if (k != PLAIN && !(k == SINGLE && mon.m.in.empty() && mon.m.pending()))
        for (u64 n = g.below(4); n > 0; n--)
          if (mon.put(wire.next()) == RESOLVED)
            break;
      break;
    case 4: {
      while (k != PLAIN && !mon.m.in.empty())
        mon.put(wire.next());
      const Bytes r = wire.request(fn);
      if (k == PLAIN)
        mon.process_plain(r.data(), r.size());
      else {
        while (k == SINGLE && mon.m.pending())
          mon.get();
        mon.read(r.data(), r.size(), int(g.below(2)), -1);
      }
      break;
    }
    case 5:
      if (g.chance(1, 3))
        mon.call_action(g, fn);
      break;
    default:
      if (k != PLAIN)
        g.chance(1, 3) ? mon.write(int(g.below(2))) : void(mon.get());
    }
  }
  st().ev("histories with copies and moves");
  if (st().wants_sample() && g.chance(1, 3))
    st().sample(ms[0]->history.substr(0, 300));
}
#endif

//---------------------------------------------------------------- entry point

template<typename F>
static void attempt(F f) {
  cw().log.clear();
  cw().throw_in = -1;
  try {
    f();
  } catch (Abandon &) {
  }
}

static void workload(const std::string &p, u64 rounds, u64 giant, Rng &g) {
  if (p == "C06" || p == "C07" || p == "C14" || p == "C12")
    st().max_samples = 4;
  for (u64 round = 0; round < rounds * giant; round++)
    for (int pol = 0; pol < POLICIES; pol++) {
      const bool any = pol == 1;
#ifndef NO_PLAIN
      if (p == "C06" || p == "C26")
        attempt([&] { run_rpc(Rng(g.next()), PLAIN, any, 60); });
      if (p == "C07")
        for (unsigned noise : {0u, 4u, 14u}) {
          attempt([&] { run_plain(Rng(g.next()), any, 60, noise, false, false); });
          attempt([&] { run_exact(Rng(g.next()), any); });
        }
      if (p == "C12")
        attempt([&] { run_plain(Rng(g.next()), any, 60, 2, true, false); });
      if (p == "C14")
        attempt([&] { run_plain(Rng(g.next()), any, 60, 2, false, true); });
#ifdef VALUES
      if (p == "C27")
        attempt([&] { run_values(Rng(g.next()), PLAIN, any, 200); });
#endif
      if (p == "C10") {
        attempt([&] { run_plain(Rng(g.next()), any, 40, 8, false, false); });
        attempt([&] { Monitor(*W, PLAIN, any).check_sizes(); });
      }
#endif
#ifndef NO_BUFFERED
      for (int ki = 0; ki < KINDS; ki++) {
        const Kind k = KINDS == 1 ? DOUBLE : buffered[ki];
        auto mix = [&](unsigned steps, Mix x) { attempt([&] { run_mix(Rng(g.next()), k, any, steps, x); }); };
        //        put read proc get write load repl act noise src    sink   cb     drain
        if (p == "C06" || p == "C26")
          attempt([&] { run_rpc(Rng(g.next()), k, any, 60); });
        if (p == "C08") {
          mix(150, {8, 0, 0, 1, 1, 0, 0, 0, 3, false, false, false, false});
          mix(150, {8, 4, 2, 1, 1, 0, 0, 0, 6, false, false, false, true});
          mix(150, {8, 2, 2, 2, 1, 0, 0, 0, 14, false, false, false, false});
          mix(60, {0, 4, 4, 1, 1, 0, 0, 0, 3, false, false, false, true});
        }
        if (p == "C09") {
          mix(150, {6, 2, 1, 6, 1, 1, 0, 0, 1, false, false, false, true});
          mix(150, {6, 2, 2, 3, 2, 1, 0, 0, 8, false, false, false, true});
          mix(100, {3, 3, 0, 8, 0, 1, 0, 0, 3, false, false, false, true});
        }
        if (p == "C10") {
          mix(150, {8, 2, 2, 4, 1, 0, 0, 0, 4, false, false, false, true});
          mix(150, {8, 2, 2, 2, 1, 0, 0, 0, 14, false, false, false, false});
          mix(100, {8, 2, 2, 2, 1, 0, 0, 0, 4, true, true, true, false});
          attempt([&] { Monitor(*W, k, any).check_sizes(); });
        }
        if (p == "C26") {
          mix(150, {8, 2, 2, 4, 1, 1, 2, 1, 2, false, false, false, true});
          attempt([&] { Monitor(*W, k, any).check_sizes(); });
        }
        if (p == "C12") {
          mix(150, {8, 3, 3, 3, 2, 1, 0, 0, 3, false, false, true, true});
          mix(150, {4, 6, 3, 3, 2, 1, 0, 0, 3, true, false, false, true});
          mix(150, {4, 3, 6, 2, 6, 1, 0, 0, 1, false, true, false, true});
          mix(150, {4, 4, 4, 2, 3, 1, 0, 0, 4, true, true, true, true});
        }
#ifdef VALUES
        if (p == "C27")
          for (int i = 0; i < 3; i++)
            attempt([&] { run_values(Rng(g.next()), k, any, 200); });
#endif
#ifdef WITH_REPLY
        if (p == "C13")
          for (int i = 0; i < 3; i++)
            attempt([&] { run_reply(Rng(g.next()), k, any, 60); });
#endif
        if (p == "C14") {
          mix(150, {8, 2, 2, 4, 1, 0, 4, 1, 2, false, false, false, true});
          mix(150, {8, 2, 2, 4, 1, 0, 6, 0, 2, false, false, true, true});
          attempt([&] {
            Rng r(g.next());
            Monitor mon(*W, k, any);
            for (int i = 0; i < 6; i++) {
              const std::size_t fn = r.below(W->desc.fns.size());
              if (mon.disp->replaceable(fn))
                mon.replace(fn, any ? 100 + i : int(r.below(3)));
              mon.check_sizes();
            }
          });
        }
      }
      if (p == "C11" && round < (giant == 1 ? 0 : 2 * rounds)) {
        attempt([&] { run_interleavings(Rng(g.next()), DOUBLE, any, opt().thorough ? 60000 : 400); });
#if KINDS == 3
        attempt([&] { run_interleavings(Rng(g.next()), CUSTOM, any, opt().thorough ? 20000 : 100); });
#endif
      }
      if (p == "C11") {
        auto mix = [&](Kind k, unsigned steps, Mix x) { attempt([&] { run_mix(Rng(g.next()), k, any, steps, x); }); };
        mix(DOUBLE, 300, {6, 0, 0, 5, 0, 0, 0, 0, 2, false, false, false, false});
        mix(DOUBLE, 300, {6, 1, 1, 5, 1, 1, 0, 0, 6, false, false, false, false});
      }
#endif
      if (p == "C14")
        attempt([&] { run_siblings(Rng(g.next()), 250); });
    }
}

#ifndef THREADED
int main(int argc, char **argv) {
  init(argc, argv);
  World world = the_world();
  W = &world;
  st().max_samples = 3;
  Rng g(opt().seed * 77 + hash_str(world.desc.name));
  cw().rng = Rng(opt().seed + 5);
  const u64 rounds = (opt().thorough ? 40 : 1) * opt().scale;
#ifdef GIANT
  const u64 giant = 1; // long requests: fewer of them
#else
  const u64 giant = 12;
#endif

  for (const std::string &p : asked())
    workload(p, rounds, giant, g);
  return finish();
}
#endif
