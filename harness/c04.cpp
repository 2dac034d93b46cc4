// C04: a copy equals its original and is independent of it.
// VARIANTS: 5
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_BASIC | O_BACK | O_CBS | O_FUNCS;

template <class T>
static void copies(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = 10;
  g.ttl[1] = 25;
  g.cap[0] = 2;
  g.cap[1] = 3;
  g.slots = 2;
  g.nkeys = 3;
  g.age_cap = 40;
  Sut<T>::probe_steps = {4, 6, 1, 8, 6, 1, 100};
  g.observe = SEE | O_EQ | P_LOOKUP | (T::timed ? P_EXPIRE : P_DRAIN);

  // Any contents of both, a copy, then anything to either.
  std::vector<Op> setup = Ops(3, 1, 1).k({INSERT}).with(CAPACITY, {1});
  if (T::timed) add(setup, Ops(1, 1).with(ADVANCE, {6}));
  setup.push_back({INSERT, 0, 0, 1});
  if (!T::timed) setup.push_back({CONTAINS, 0, 0, 0});
  setup.push_back({INSERT, 1, 2, 1});
  setup.push_back({INSERT, 1, 0, 1});
  std::vector<Op> copy = Ops(1, 1, 2).between(
      {COPY_ASSIGN, COPY_ASSIGN_NC, COPY_CTOR, COPY_CTOR_NC}, true);
  std::vector<Op> then;
  for (auto& o : everything(3, 2, false)) {
    if (o.kind == MOVE_CTOR && o.a == o.slot) continue;
    if (o.kind == INSERT && o.b == 1) continue;
    if ((o.kind == CONTAINS_C || o.kind == FIND || o.kind == SUB ||
         o.kind == SUB_C || o.kind == LOOKUP_C || o.kind == W_SUB ||
         o.kind == EMPLACE_L || o.kind == INSERT_T || o.kind == ERASE_SELF) &&
        o.a != 0)
      continue;
    then.push_back(o);
  }
  add(then, Ops(1, 1, 2).plain({REMAKE}));
  if (T::timed) add(then, Ops(1, 1, 2).with(ADVANCE, {6}).plain({CLEAR_EXPIRED}));
  g.age_cap = 30;
  if (T::timed) {  // keep the setup finite
    g.age_cap = 12;
  }
  staged_job<T>("copy-one", g, setup, {copy, then}, 8, 0, 0,
                T::timed ? (thorough ? 5 : sanitized ? 2 : 3) : 50);
  std::vector<Op> core = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C, INSERT, ERASE, ERASE_O})
                             .plain({CLEAR, REMAKE}).with(CAPACITY, {1, 3});
  for (int s = 0; s < 2; ++s) core.push_back({W_FIND, s, 0, 1});
  if (T::timed) add(core, Ops(1, 1).with(ADVANCE, {6}));
  std::vector<Op> small_setup = Ops(2, 1, 2).k({INSERT});
  if (T::timed) add(small_setup, Ops(1, 1).with(ADVANCE, {6}));
  std::vector<std::vector<Op>> two{copy, core, core};
  if (!thorough && small && sanitized) two.pop_back();
  staged_job<T>("copy-two", g, small_setup, two, 8, 0,
                small || T::timed ? 0 : 1, T::timed ? (thorough ? 5 : sanitized ? 2 : 4) : 50);
  if (thorough)
    staged_job<T>("copy-three", g, small_setup, {copy, core, core, core}, 16, 0, 0,
                  T::timed ? (sanitized ? 2 : 4) : 50);
  // Copies of copies, and copying in between.
  g.nkeys = 2;
  g.ops = Ops(2, 1, 2).k({INSERT, ERASE}).with(CAPACITY, {1});
  for (int s = 0; s < 2; ++s) g.ops.push_back({LOOKUP, s, 0, 0});
  add(g.ops, copy);
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {6}));
  tree_job<T>("tree", g, small || sanitized ? 3 + thorough : 4 + thorough, 8);

  // Statistics and callbacks.
  g.stats = g.callbacks = true;
  g.observe = SEE | O_STATS | O_EVENTS;
  std::vector<Op> more = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C, INSERT})
                             .plain({STOP, MON_NEW, CB_HIT, CB_MISS, CB_ACC, CB_CLR_HIT,
                                     CB_CLR_ALL, ST_RESET_ALL, REMAKE})
                             .with(MON_KEY, {1}).with(ST_MON, {1}).with(ST_UNMON, {0});
  std::vector<Op> prepare = Ops(1, 1, 2).k({INSERT});
  prepare.push_back({STOP, 0, 0, 0});
  prepare.push_back({CB_CLR_ALL, 0, 0, 0});
  prepare.push_back({CB_HIT, 0, 0, 0});
  prepare.push_back({CB_MISS, 1, 0, 0});
  std::vector<std::vector<Op>> stages{copy, more, more};
  if (!thorough && (small || sanitized)) stages.pop_back();
  staged_job<T>("monitored", g, prepare, stages, 8);
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  copies<IntTraits>(thorough, false);
#elif VARIANT == 1
  copies<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  copies<StrTraits>(thorough, true);
#elif VARIANT == 3
  copies<TrackedTraits>(thorough, true);
#else
  const unsigned see = O_BASIC | O_BACK;
  const std::vector<Between> kinds = {Between::COPY_CTOR, Between::COPY_ASSIGN, Between::COPY_SELF};
  pair_job<IntTraits>("sizes", kinds, sanitized ? 8 : thorough ? 140 : 40, thorough ? 40 : sanitized ? 4 : 8, 16, see,
                      sanitized ? std::vector<int>{} : std::vector<int>{29, 30, 59, 60, 128, 129});
  pair_job<TimedIntTraits<Ns>>("sizes-timed", kinds, sanitized ? 6 : thorough ? 100 : 30, thorough ? 30 : sanitized ? 3 : 6, 16, see,
                               sanitized ? std::vector<int>{} : std::vector<int>{64, 130});
#endif
}
