// C08: invalid uses are reported by the documented errors and change nothing.
// VARIANTS: 3
#include "traits.hpp"
using namespace mc;

static constexpr unsigned SEE = O_ERRORS | O_VALID | O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT;

template <class T>
static void errors(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 3;
  g.nvals = 1;
  g.age_cap = 11;
  g.observe = SEE;
  for (auto& o : everything(3))
    if (!(o.kind == INSERT && o.b == 1)) g.ops.push_back(o);
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  for (auto& o : g.ops)
    if (o.kind < CLEAR) o.b = 0;
  if (T::timed) add(g.ops, Ops(3, 1).with(ADVANCE, {11}).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
  bfs_job<T>("bfs", g, thorough || !(small || sanitized || T::timed) ? 1 : 0, 30, 8, 2000000);
  g.cap[0] = 2;
  g.ops = Ops(3, 1).k({CONTAINS, LOOKUP, SUB_C, FIND, ERASE, ERASE_O, INSERT, W_LOOKUP})
              .plain({CLEAR}).with(CAPACITY, {0, 2});
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {6}));
  tree_job<T>("tree", g, (sanitized || small ? 2 : 3) + (thorough ? 1 : 0), 8);
  // Errors of lookups do not spoil statistics-and-callback bookkeeping either.
  g.stats = g.callbacks = true;
  g.observe = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT | O_CBS;
  tree_job<T>("monitored", g, (sanitized || small ? 2 : 3) + (thorough ? 1 : 0), 8);
}

// Default-constructed exceptions and their messages.
static void messages(Chooser& ch, Ctx& ctx) {
  using namespace LRU::Error;
  auto is = [&](const std::exception& e) {
    MC_CHECK(e.what() != nullptr && *e.what(), "an error without a message");
    MC_CHECK(dynamic_cast<const std::runtime_error*>(&e), "not a runtime_error");
  };
  switch (ch.choose(7)) {
    case 0: is(KeyNotFound()); break;
    case 1: is(KeyExpired()); break;
    case 2: is(InvalidIterator()); break;
    case 3: is(InvalidIteratorConversion()); break;
    case 4: is(EmptyCache("front")); break;
    case 5: is(UnmonitoredKey()); break;
    default: is(NotMonitoring()); break;
  }
  ctx.states += 1;
  ctx.transitions += 1;
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  errors<IntTraits>(thorough, false);
  search_job("messages", 1, messages);
#elif VARIANT == 1
  errors<TimedIntTraits<Ns>>(thorough, false);
#else
  errors<StrTraits>(thorough, true);
#endif
}
