// Wrapped functions and time: any unit for the time to live, and clocks that
// advance while a wrapped function is called.
#pragma once
#include "traits.hpp"

namespace mc {

// The time to live is count units; the results are asked for at two ages.
template <class D>
[[maybe_unused]] static void wrapped_ttl(Chooser& ch, Ctx& ctx) {
  static const int64_t counts[] = {0, 1, 2, 3, 7, 59, 60, 999, 1000, 1001, 1500, 1900, 2500, 86401};
  const D ttl(counts[ch.choose(14)]);
  const auto in_ns = std::chrono::duration_cast<std::chrono::duration<double, std::nano>>(ttl).count();
  if (in_ns > 1e14) return;
  const int64_t ttl_ns = int64_t(in_ns);
  if (double(ttl_ns) != in_ns) return;
  vclock.now = 1000000000;
  int calls = 0;
  auto f = [&calls](int a) { return a * 1000 + ++calls; };
  const int form = ch.choose(3);
  auto make = [&]() -> std::function<int(int)> {
    switch (form) {
      case 0: return LRU::timed_wrap(f, ttl);
      case 1: return LRU::timed_wrap(f, ttl, size_t(5));
      default: return LRU::wrap<decltype(f), LRU::TimedCache>(f, ttl, 7);
    }
  };
  auto w = make();
  const int64_t ages[] = {0, 1, ttl_ns / 2, ttl_ns - 1, ttl_ns, ttl_ns + 1, ttl_ns + 1000, 2 * ttl_ns + 1000000};
  int64_t last = 0, stored = 0;
  int expected = 0;
  auto call = [&] {
    const bool hit = expected != 0 && vclock.now - stored <= ttl_ns;
    const int before = calls;
    const int r = w(4);
    MC_CHECK((calls == before) == hit, "time to live ", ttl_ns, " ns, age ", vclock.now - stored,
             " ns: the original was called: ", calls != before);
    if (!hit) {
      expected = 4000 + calls;
      stored = vclock.now;
    }
    MC_CHECK(r == expected, "got ", r, ", expected ", expected);
    ++ctx.transitions;
  };
  call();
  for (int i = 0; i < 3; ++i) {
    const int64_t age = ages[ch.choose(8)];
    if (age < last) return;
    vclock.now += age - last;
    last = age;
    const int64_t before = stored;
    call();
    if (stored != before) last = 0;
  }
  ++ctx.states;
  ++ctx.nontrivial;
}
[[maybe_unused]] static void wrapped_units(bool) {
  const char* bounds = "3 ways to wrap, 14 times to live, every history of 3 of 8 ages";
  search_job("unit-ns", 1, wrapped_ttl<Ns>, bounds);
  search_job("unit-us", 1, wrapped_ttl<Us>, bounds);
  search_job("unit-ms", 1, wrapped_ttl<Ms>, bounds);
  search_job("unit-s", 1, wrapped_ttl<Sec>, bounds);
  search_job("unit-min", 1, wrapped_ttl<Min>, bounds);
  search_job("unit-hours", 1, wrapped_ttl<std::chrono::hours>, bounds);
  search_job("unit-tenths", 1, wrapped_ttl<std::chrono::duration<int64_t, std::ratio<1, 10>>>, bounds);
  search_job("unit-double-ms", 1, wrapped_ttl<std::chrono::duration<double, std::milli>>, bounds);
  search_job("unit-double-s", 1, wrapped_ttl<std::chrono::duration<double>>, bounds);
  search_job("unit-double-us", 1, wrapped_ttl<std::chrono::duration<double, std::micro>>, bounds);
}

// The clock advances at each of its readings, and while the original runs, by
// an amount that is chosen. A result is stored at some instant during the call
// that computes it; a call finds it if it may still be alive at one instant of
// the call, and has to if it is at all of them.
struct SteppingClock {
  static Chooser*& chooser() {
    static Chooser* c = nullptr;
    return c;
  }
  static int& left() {
    static int n = 0;
    return n;
  }
  static int64_t step() {
    static const int64_t steps[] = {0, 1, 5, 11};
    if (left() > 0) {
      --left();
      vclock.now += 1000000 * steps[chooser()->choose(4)];
    }
    return vclock.now;
  }
};
[[maybe_unused]] static void wrapped_stepping(Chooser& ch, Ctx& ctx, int steps, int reads) {
  struct Entry {
    int arg, result;
    int64_t from, to;  // when it was stored
  };
  std::vector<Entry> m;  // least recently used first
  const int64_t ttl = 10 * 1000000;
  const size_t cap = size_t(ch.choose(2)) + 1;
  const bool slow = ch.flag();  // the original takes time
  vclock.now = 1000000000;
  int calls = 0, given = -1;
  bool fails = false;
  auto f = [&](int a) {
    ++calls;
    given = a;
    if (slow) SteppingClock::step();
    if (fails) throw std::logic_error("the original fails");
    return calls;
  };
  auto w = LRU::timed_wrap(f, Ms(10), cap);
  SteppingClock::chooser() = &ch;
  bool hits = false;
  for (int s = 0; s < steps; ++s) {
    const int o = ch.choose(6);
    if (s == 0) ch.split();
    if (o == 5) {
      vclock.now += 9 * 1000000;
      continue;
    }
    const int a = o == 4 ? 0 : o % 2;
    fails = o == 4;
    if (o == 2 || o == 3) vclock.now += 2 * 1000000;
    auto e = std::find_if(m.begin(), m.end(), [&](auto& x) { return x.arg == a; });
    const int64_t start = vclock.now;
    const int before = calls;
    SteppingClock::left() = reads;
    vclock.on_read = SteppingClock::step;
    int r = 0;
    bool thrown = false;
    std::string other;
    try {
      r = w(a);
    } catch (std::logic_error&) {
      thrown = true;
    } catch (std::exception& x) {
      other = x.what();
    }
    vclock.on_read = nullptr;
    const int64_t end = vclock.now;
    ++ctx.transitions;
    const std::string when = str(" (call of ", a, " from ", start, " to ", end, " ns)");
    MC_CHECK(other.empty(), "the wrapped function raises ", other, when);
    MC_CHECK(calls <= before + 1, "the original was called twice", when);
    if (calls == before) {
      MC_CHECK(e != m.end(), "the original was not called", when);
      MC_CHECK(start - e->to <= ttl, "the original was not called although the result had expired", when,
               ", stored from ", e->from, " to ", e->to);
      MC_CHECK(!thrown && r == e->result, "got ", r, ", expected ", e->result, when);
      std::rotate(e, e + 1, m.end());
      hits = true;
      continue;
    }
    MC_CHECK(given == a, "the original got ", given, when);
    MC_CHECK(e == m.end() || end - e->from > ttl, "the original was called although its result is alive", when);
    MC_CHECK(thrown == fails, thrown ? "unexpected exception" : "the exception got lost", when);
    if (thrown) continue;
    MC_CHECK(r == calls, "got ", r, ", expected ", calls, when);
    if (e != m.end()) m.erase(e);
    else if (m.size() == cap) m.erase(m.begin());
    m.push_back({a, r, start, end});
  }
  ++ctx.states;
  if (hits) ++ctx.nontrivial;
}
[[maybe_unused]] static void wrapped_clock(bool more) {
  const int steps = more ? 4 : 3, reads = more ? 4 : sanitized ? 2 : 3;
  search_job("wrapped-stepping", 8, [=](Chooser& ch, Ctx& c) { wrapped_stepping(ch, c, steps, reads); },
             str("every history of ", steps, " calls of a wrapped function, the clock advancing by 0, 1, 5 or 11 ms "
                 "at the first ", reads, " readings of each (time to live 10 ms)"));
}

}  // namespace mc
