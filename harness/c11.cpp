// C11: each access takes effect at a single instant, even if time passes.
// VARIANTS: 2
#include "wrapped.hpp"
using namespace mc;

// While an operation runs, the clock advances at each of its readings by an
// amount that is chosen, all choices being explored. The operation must agree
// in all its effects with the model's operation performed at one of the
// instants from its start to its end.
static Chooser* chooser;
static std::vector<int64_t> instants;
static int reads_left;

static int64_t advancing_clock() {
  static const int64_t steps[] = {0, 1, 5, 11};
  if (reads_left > 0) {
    --reads_left;
    int64_t d = steps[chooser->choose(4)];
    if (d) {
      vclock.now += d;
      instants.push_back(vclock.now - 1000000000);
    }
  }
  return vclock.now;
}

enum { IS_VALID_U = NUM_KINDS, IS_VALID_O, THROW_U, THROW_O, KEY_U, VALUE_O, ENTRY_UC, HAS_U, HAS_O };
static const char* name_of(const Op& o) {
  static const char* t[] = {"is_valid(unordered)", "is_valid(ordered)", "throw_if_invalid(unordered)",
                            "throw_if_invalid(ordered)", "unordered.key()", "ordered.value()",
                            "unordered const.entry()", "has_expired(unordered)", "has_expired(ordered)"};
  return o.kind < NUM_KINDS ? kind_name(o.kind) : t[o.kind - NUM_KINDS];
}

template <class T>
struct Explorer {
  Cfg g;
  std::vector<Trace> setups;
  std::vector<Op> ops;

  explicit Explorer(bool thorough) {
    g.timed = true;
    g.expired = expired_ns;
    g.ttl[0] = 10;
    g.cap[0] = 2;
    g.nkeys = 2;
    g.stats = g.callbacks = true;
    g.lists = some_lists();
    g.observe = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_STATS | O_EVENTS;
    g.age_cap = 24;
    g.ops = Ops(2, 1).k({INSERT, CONTAINS}).with(ADVANCE, {9});
    // All states reachable.
    Machine<T> m;
    m.g = g;
    std::vector<std::pair<Trace, World>> nodes{{{}, m.initial()}};
    auto key = [&](World w) {
      for (auto& s : w.stats) s = MStats();
      return w.key(g);
    };
    std::set<std::string> seen{key(nodes[0].second)};
    for (size_t at = 0; at < nodes.size() && at < 5000; ++at)
      for (int i = 0; i < int(g.ops.size()); ++i) {
        auto n = nodes[at];
        if (int(n.first.size()) >= (thorough ? 8 : 6)) break;
        n.second.apply(g, g.ops[size_t(i)]);
        n.first.push_back(i);
        // which key was accessed last matters
        int last = -1;
        for (int j : n.first)
          if (g.ops[size_t(j)].kind != ADVANCE) last = int(g.ops[size_t(j)].a);
        if (seen.insert(key(n.second) + char(last + 1)).second) nodes.push_back(n);
      }
    for (auto& n : nodes) setups.push_back(n.first);
    ops = Ops(2, 1).k({CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C, W_LOOKUP,
                       W_FIND, HAS_EXPIRED, INSERT, EMPLACE, ERASE, ERASE_O, IS_VALID_U, IS_VALID_O,
                       THROW_U, THROW_O, KEY_U, VALUE_O, ENTRY_UC, HAS_U, HAS_O})
              .plain({CLEAR_EXPIRED, ALL_EXPIRED});
    for (auto& o : ops)
      if (o.kind < CLEAR) o.b = 1;
    g.nvals = 2;
  }

  // The operations on iterators, performed by the model and by the code.
  Outcome model(World& w, const Op& o) {
    if (o.kind < NUM_KINDS) return w.apply(g, o);
    w.events.clear();
    const MEntry& e = w.c[0].e[w.c[0].find(int(o.a))];
    const bool ex = w.expired(g, w.c[0], e);
    switch (o.kind) {
      case IS_VALID_U: case IS_VALID_O: return {!ex};
      case THROW_U: case THROW_O: return {ex ? int(E_EXPIRED) : 0};
      case HAS_U: case HAS_O: return {ex};
      case VALUE_O: return {ex ? int(E_EXPIRED) : 0, ex ? 0 : e.v};
      default: return {ex ? int(E_EXPIRED) : 0, ex ? 0 : e.k};
    }
  }
  Outcome real(Sut<T>& sut, const Op& o, typename Sut<T>::UIt& u, typename Sut<T>::OIt& ord) {
    if (o.kind < NUM_KINDS) return sut.apply(o, false);
    auto& c = *sut.c[0];
    int err = 0, x = 0;
    bool b = false;
    err = Sut<T>::error_of([&] {
      switch (o.kind) {
        case IS_VALID_U: b = c.is_valid(u); break;
        case IS_VALID_O: b = c.is_valid(ord); break;
        case THROW_U: c.throw_if_invalid(u); break;
        case THROW_O: c.throw_if_invalid(ord); break;
        case HAS_U: b = c.has_expired(u); break;
        case HAS_O: b = c.has_expired(ord); break;
        case VALUE_O: x = T::vi(ord.value()); break;
        case KEY_U: x = T::ki(u.key()); break;
        default: {
          typename Sut<T>::UCIt uc(u);
          x = T::ki(uc.entry().key());
        }
      }
    });
    if (err) return {err, 0};
    return {b ? 1 : 0, x};
  }

  void scenario(Chooser& ch, Ctx& ctx, int steps) {
    const Trace& tr = setups[size_t(ch.choose(int(setups.size())))];
    std::vector<World> worlds(1);
    worlds[0].init(g);
    Sut<T> sut(g);
    for (int i : tr) {
      worlds[0].apply(g, g.ops[size_t(i)]);
      sut.apply(g.ops[size_t(i)], false);
      if (verbose) say("  ", op_str(g.ops[size_t(i)]));
    }
    for (int step = 0; step < steps; ++step) {
      const Op o = ops[size_t(ch.choose(int(ops.size())))];
      if (step == 0) ch.split();
      const World& any = worlds[0];
      const bool needs = o.kind >= NUM_KINDS || o.kind == ERASE_O;
      if (needs && any.c[0].find(int(o.a)) < 0) return;
      typename Sut<T>::UIt u = sut.c[0]->unordered_end();
      typename Sut<T>::OIt ord = sut.c[0]->ordered_end();
      if (needs) {
        // Fetched while time stands still.
        u = sut.scan_u(*sut.c[0], int(o.a));
        ord = typename Sut<T>::OIt(u);
      }
      g_events.clear();
      instants.assign(1, vclock.now - 1000000000);
      chooser = &ch;
      // (erasing through an iterator scans with the clock standing still too)
      reads_left = step == 0 ? 5 : 2;
      vclock.on_read = advancing_clock;
      Outcome got;
      try {
        if (o.kind == ERASE_O) {
          sut.c[0]->erase(ord);
          got = {};
        } else {
          got = real(sut, o, u, ord);
        }
      } catch (...) {
        vclock.on_read = nullptr;
        throw;
      }
      vclock.on_read = nullptr;
      const int64_t end = vclock.now;
      std::vector<World> next;
      std::string why;
      for (auto& w : worlds)
        for (int64_t t : instants) {
          World x = w;
          x.now = t;
          Outcome e = model(x, o);
          x.now = end - 1000000000;
          try {
            if (!agree(o, e, got)) fail("the result is ", got, ", expected ", e);
            sut.observe_events(x);
            sut.observe(x, g.observe);
            for (int64_t d : {0, 1, 4, 1, 4, 1, 20}) {
              vclock.now += d;
              x.now += d;
              for (int k = 0; k < g.nkeys; ++k) {
                int i = x.c[0].find(k);
                bool ex = i >= 0 && x.expired(g, x.c[0], x.c[0].e[i]);
                if (sut.c[0]->has_expired(T::mk(k)) != ex)
                  fail("later, has_expired(", k, ") is ", !ex);
              }
            }
            vclock.now = end;
            x.now = end - 1000000000;
            next.push_back(x);
          } catch (Fail& f) {
            vclock.now = end;
            why += str(" / at ", t, ": ", f.what);
          }
        }
      ++ctx.transitions;
      if (verbose) {
        std::string s;
        for (auto t : instants) s += str(" ", t);
        say("  ", name_of(o), "(", o.a, ") at the instants", s, " gives ", got);
      }
      if (next.empty()) {
        std::string s;
        for (auto t : instants) s += str(" ", t);
        std::string h;
        for (int i : tr) h += str(op_str(g.ops[size_t(i)]), "; ");
        fail(name_of(o), "(", o.a, ") with the clock at", s,
             " does not agree with being performed at any of these instants", why, " after ", h);
      }
      worlds.swap(next);
      if (ctx.evaluations % 100003 == 0)
        ctx.sample(str(name_of(o), "(", o.a, ") over ", instants.size(), " instants"));
    }
    ctx.states += 1;
  }

  static bool agree(const Op& o, Outcome e, Outcome got) {
    // Without its log, an operation reports no entry.
    switch (o.kind) {
      case INSERT: case EMPLACE: return true;
      case FIND: case FIND_C: return e.r == got.r;
      default: return matches(e, got);
    }
  }
};

template <class T>
static void add_job(const std::string& name, bool thorough, int steps, int parts) {
  auto x = std::make_shared<Explorer<T>>(thorough);
  search_job(
      name, parts, [x, steps](Chooser& ch, Ctx& ctx) { x->scenario(ch, ctx, steps); },
      str("all ", x->setups.size(), " states, sequences of ", steps, " of ", x->ops.size(),
          " operations, the clock advancing by 0, 1, 5 or 11 ns at each reading (time to live 10 ns)"));
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  add_job<TimedIntTraits<Ns>>("one", thorough, 1, 8);
  if (!sanitized || thorough) add_job<TimedIntTraits<Ns>>("two", thorough && !sanitized, 2, 16);
#else
  add_job<TimedStrTraits<Ns>>("one", thorough, 1, 8);
  wrapped_clock(thorough && !sanitized);
#endif
}
