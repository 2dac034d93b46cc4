// C14: callbacks fire once per access, with the right arguments, in order.
// VARIANTS: 5
// SAN: 0 1
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_EVENTS | O_CBS | O_RESULT;

template <class T>
static void firing(bool thorough, bool small, std::string pre = "") {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 3;
  g.nvals = 2;
  g.age_cap = 11;
  g.callbacks = true;
  g.observe = SEE;
  std::vector<Op> cbs = Ops(1, 1).plain({CB_HIT, CB_MISS, CB_ACC, CB_CLR_HIT, CB_CLR_MISS, CB_CLR_ACC, CB_CLR_ALL});
  std::vector<Op> all = everything(3);
  add(all, cbs);
  if (T::timed)
    add(all, Ops(3, 1).with(ADVANCE, {6, 11}).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
  // Every state of the contents and number of callbacks; any operation; lookups.
  std::vector<Op> setup = Ops(3, 1).k({INSERT, ERASE}).plain({CB_HIT, CB_ACC});
  setup.push_back({INSERT, 0, 0, 1});
  if (T::timed) setup.push_back({ADVANCE, 0, 6, 0});
  std::vector<Op> l = lookups(3), few = Ops(3, 1).k({CONTAINS, FIND_C, LOOKUP});
  const bool full = thorough || !(small || sanitized || T::timed);
  staged_job<T>(pre + "any-then-lookups", g, setup, {all, full ? l : few}, 8, 0, 0, full ? 50 : 6);
  staged_job<T>(pre + "lookups-then-any", g, setup, {few, all, Ops(3, 1).k({FIND_C})}, 8, 0, 0, thorough ? 50 : full ? 5 : 3);
  // All histories.
  g.nvals = 1;
  g.ops = Ops(3, 1).k({CONTAINS, CONTAINS_C, FIND, LOOKUP, LOOKUP_C, SUB_C, INSERT, ERASE});
  add(g.ops, cbs);
  if (T::timed) add(g.ops, Ops(3, 1).with(ADVANCE, {11}));
  tree_job<T>(pre + "tree", g, (sanitized || small ? 3 : 4) + (thorough && !small ? 1 : 0), 16);
  if (small) return;
  // Registering and clearing, deeper; starting without callbacks.
  g.callbacks = false;
  g.nkeys = 2;
  g.ops = Ops(2, 1).k({CONTAINS}).plain({MON_NEW});
  g.ops.push_back({INSERT, 0, 0, 0});
  add(g.ops, cbs);
  tree_job<T>(pre + "registering", g, sanitized ? 4 : thorough ? 6 : 5, 8);
  // Two caches; copies, moves and swaps take callbacks along.
  g.slots = 2;
  g.ops = Ops(1, 1, 2).k({CONTAINS, INSERT}).plain({CB_HIT, CB_MISS, CB_ACC, CB_CLR_ALL, CB_CLR_MISS})
              .between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, SWAP_FREE}, false);
  tree_job<T>(pre + "two", g, (sanitized ? 3 : 4) + (thorough && !sanitized ? 1 : 0), 16);
}

// Callbacks that use the state of their own (by value or by reference), and
// function pointers.
static std::vector<int> g_seen;
static void on_hit(const int& k, const int& v) { g_seen.push_back(100 + k * 10 + v); }
static void on_miss(const int& k) { g_seen.push_back(200 + k); }
static void on_access(const int& k, bool hit) { g_seen.push_back(300 + k * 10 + hit); }
template <class C>
static void forms(Chooser& ch, Ctx& ctx, C* c) {
  std::unique_ptr<C> own(c);
  const C& cc = *c;
  g_seen.clear();
  std::vector<int> expected;
  int count = 0;
  struct Counter {
    int n = 0;
    int* out;
    void operator()(const int&, bool) { *out = ++n; }
  };
  Counter counter{0, &count};
  // As function pointers, std::functions (rvalue, lvalue or const), or lvalues of
  // a type that is empty after moving.
  std::shared_ptr<int> token = std::make_shared<int>(0);
  auto hit_object = [token](const int& k, const int& v) { MC_CHECK(token, "a callback was emptied"); on_hit(k, v); };
  auto miss_object = [token](const int& k) { MC_CHECK(token, "a callback was emptied"); on_miss(k); };
  auto access_object = [token](const int& k, bool h) { MC_CHECK(token, "a callback was emptied"); on_access(k, h); };
  std::function<void(const int&, const int&)> hit_f = hit_object;
  std::function<void(const int&)> miss_f = miss_object;
  std::function<void(const int&, bool)> access_f = access_object;
  const auto hit_cf = hit_f;
  const auto miss_cf = miss_f;
  const auto access_cf = access_f;
  C other(*c);
  const int form = ch.choose(5);
  for (C* x : {&other, c}) {
    switch (form) {
      case 0:
        x->hit_callback(on_hit);
        x->miss_callback(&on_miss);
        x->access_callback(on_access);
        break;
      case 1:
        x->hit_callback(hit_f);
        x->miss_callback(miss_f);
        x->access_callback(access_f);
        break;
      case 2:
        x->hit_callback(hit_cf);
        x->miss_callback(miss_cf);
        x->access_callback(access_cf);
        break;
      case 3:
        x->hit_callback(hit_object);
        x->miss_callback(miss_object);
        x->access_callback(access_object);
        break;
      default:
        x->hit_callback(std::function<void(const int&, const int&)>(hit_f));
        x->miss_callback(std::function<void(const int&)>(miss_f));
        x->access_callback(std::function<void(const int&, bool)>(access_f));
        break;
    }
    MC_CHECK(hit_f && hit_cf && miss_f && miss_cf && access_f && access_cf,
             "a callback passed as an lvalue was modified");
  }
  c->access_callback(counter);
  c->insert(1, 7);
  const int steps = 3;
  for (int i = 1; i <= steps; ++i) {
    int k = ch.choose(2) + 1;
    int how = ch.choose(4);
    try {
      switch (how) {
        case 0: c->contains(k); break;
        case 1: (void)(cc.find(k) == cc.end()); break;
        case 2: c->lookup(k); break;
        default: cc[k]; break;
      }
    } catch (LRU::Error::KeyNotFound&) {
    }
    expected.push_back(k == 1 ? 117 : 200 + k);
    expected.push_back(300 + k * 10 + (k == 1));
    MC_CHECK(g_seen == expected || std::is_permutation(g_seen.begin(), g_seen.end(), expected.begin(), expected.end()),
             "callbacks were not called as expected at access ", i);
    MC_CHECK(count == i, "a callback with state was called ", count, " times, expected ", i);
  }
  ctx.states += 1;
  ctx.transitions += steps;
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  firing<IntTraits>(thorough, false);
  search_job("forms", 1, [](Chooser& ch, Ctx& c) { forms(ch, c, new LRU::Cache<int, int>(2)); });
  search_job("forms-timed", 1, [](Chooser& ch, Ctx& c) {
    forms(ch, c, new LRU::TimedCache<int, int>(std::chrono::hours(1), 2));
  });
#elif VARIANT == 1
  firing<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  firing<StrTraits>(thorough, true);
#elif VARIANT == 3
  firing<HashTraits<ConstHash>>(thorough, true);
  firing<TimedStrTraits<Ns>>(thorough, true, "timed-");
#else
  access_job<IntTraits>("sizes", sanitized ? 8 : thorough ? 300 : 70, thorough ? 100 : sanitized ? 8 : 30, 8, false, true,
                        sanitized ? std::vector<int>{} : std::vector<int>{59, 60, 128, 129, 256, 300});
  access_job<TimedIntTraits<Ns>>("sizes-timed", sanitized ? 5 : thorough ? 200 : 40, thorough ? 60 : sanitized ? 5 : 14, 8, false, true,
                                 sanitized ? std::vector<int>{} : std::vector<int>{64, 130, 257});
#endif
}
