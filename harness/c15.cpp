// C15: a wrapped function returns what the function returns and calls it only
// on misses.
// VARIANTS: 5
#include "wrapped.hpp"
using namespace mc;

struct Loose;
namespace std {
template <>
struct hash<::Loose> {
  size_t operator()(const ::Loose& l) const;
};
}  // namespace std

// What a wrapped function remembers.
struct Memory {
  size_t cap = 128;
  int64_t ttl = -1;  // ns; -1: unlimited
  struct E {
    int key, result;
    int64_t t;
  };
  std::vector<E> e;  // least recently used first
  const E* find(int key) {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].key == key) {
        if (ttl >= 0 && vclock.now - e[i].t > ttl) return nullptr;
        std::rotate(e.begin() + long(i), e.begin() + long(i) + 1, e.end());
        return &e.back();
      }
    return nullptr;
  }
  void put(int key, int result) {
    if (cap == 0) return;
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].key == key) {
        e.erase(e.begin() + long(i));
        break;
      }
    if (e.size() >= cap) e.erase(e.begin());
    e.push_back({key, result, vclock.now});
  }
};

// The original functions tell what happened to them. Every call of an original
// gives a different result, so a cached result is recognized.
struct Log {
  int calls = 0;      // of all originals
  int last_fn = -1;   // which was called last
  int last_key = -1;  // with what
  bool fail = false;  // the next call throws
  const void* address = nullptr;
  int enter(int fn, int key) {
    ++calls;
    last_fn = fn;
    last_key = key;
    if (fail) throw std::logic_error("the original fails");
    return calls;
  }
};
static Log g_log;

// Signatures: how to call a function with argument number a in one of the ways.
struct IntSig {
  static constexpr int ARGS = 3, WAYS = 3;
  static auto original(int fn) {
    return [fn](int a) { return g_log.enter(fn, a == INT_MIN ? 2 : a + 1); };
  }
  static int arg(int a) { return a == 2 ? INT_MIN : a - 1; }
  template <class W>
  static int call(W& w, int a, int way) {
    int x = arg(a);
    const int y = arg(a);
    int r;
    switch (way) {
      case 0: r = w(x); break;
      case 1: r = w(y); break;
      default: r = w(arg(a)); break;
    }
    MC_CHECK(x == arg(a), "an lvalue argument was modified");
    return r;
  }
};
struct PairSig {  // order and grouping of arguments matter
  static constexpr int ARGS = 4, WAYS = 2;
  static auto original(int fn) {
    return [fn](int a, int b) { return g_log.enter(fn, a * 2 + b); };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    int x = a / 2, y = a % 2;
    int r = way ? w(x, y) : w(a / 2, a % 2);
    MC_CHECK(x == a / 2 && y == a % 2, "an lvalue argument was modified");
    return r;
  }
};
struct StringSig {  // by value: rvalues are moved into the original
  static constexpr int ARGS = 3, WAYS = 4;
  static auto original(int fn) {
    return [fn](std::string s) {
      int i = index_of_string(s);
      s = "spoiled";
      return g_log.enter(fn, i);
    };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    std::string x = key_string(a);
    const std::string y = x;
    int r;
    switch (way) {
      case 0: r = w(x); break;
      case 1: r = w(y); break;
      case 2: r = w(std::string(x)); break;
      default: {
        std::string z = x;
        r = w(std::move(z));
        break;
      }
    }
    MC_CHECK(x == key_string(a), "an lvalue argument was modified");
    return r;
  }
};
struct RvalueSig {  // takes its argument apart
  static constexpr int ARGS = 3, WAYS = 2;
  static auto original(int fn) {
    return [fn](std::string&& s, int n) {
      std::string mine = std::move(s);
      s.clear();
      return g_log.enter(fn, index_of_string(mine) == n ? n : -7);
    };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    if (way) return w(key_string(a), a);
    std::string z = key_string(a);
    return w(std::move(z), int(a));
  }
};
struct ReferenceSig {  // sees the caller's own object
  static constexpr int ARGS = 3, WAYS = 2;
  static auto original(int fn) {
    return [fn](const std::string& s, const int& n) {
      g_log.address = &s;
      return g_log.enter(fn, index_of_string(s) == n ? n : -7);
    };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    std::string x = key_string(a);
    const std::string& y = x;
    int n = a;
    const int before = g_log.calls;
    int r = way ? w(y, n) : w(x, n);
    MC_CHECK(g_log.calls == before || g_log.address == &x,
             "the original was not given the caller's object");
    MC_CHECK(x == key_string(a) && n == a, "an lvalue argument was modified");
    return r;
  }
};
struct MutatingSig {  // changes the caller's object itself
  static constexpr int ARGS = 3, WAYS = 1;
  static auto original(int fn) {
    return [fn](std::string& s) {
      int i = index_of_string(s);
      s = key_string((i + 1) % ARGS);
      return g_log.enter(fn, i);
    };
  }
  template <class W>
  static int call(W& w, int a, int) {
    std::string x = key_string(a);
    const int before = g_log.calls;
    int r = w(x);
    MC_CHECK(x == key_string(g_log.calls == before ? a : (a + 1) % ARGS),
             "an lvalue argument was modified by the wrapper");
    return r;
  }
};
struct NoSig {  // no arguments
  static constexpr int ARGS = 1, WAYS = 1;
  static auto original(int fn) {
    return [fn] { return g_log.enter(fn, 0); };
  }
  template <class W>
  static int call(W& w, int, int) { return w(); }
};
struct ManySig {  // every argument counts
  static constexpr int ARGS = 5, WAYS = 2;
  static auto original(int fn) {
    return [fn](char c, double d, std::string s, bool b) {
      for (int a = 0; a < ARGS; ++a)
        if (c == cc(a) && d == dd(a) && s == ss(a) && b == bb(a)) return g_log.enter(fn, a);
      return g_log.enter(fn, -7);
    };
  }
  static char cc(int a) { return a == 1 ? 'y' : 'x'; }
  static double dd(int a) { return a == 2 ? 0.5 : 0.25; }
  static std::string ss(int a) { return key_string(a == 3 ? 3 : 1); }
  static bool bb(int a) { return a == 4; }
  template <class W>
  static int call(W& w, int a, int way) {
    char c = cc(a);
    double d = dd(a);
    std::string s = ss(a);
    bool b = bb(a);
    int r = way ? w(c, d, s, b) : w(cc(a), dd(a), ss(a), bb(a));
    MC_CHECK(c == cc(a) && d == dd(a) && s == ss(a) && b == bb(a), "an lvalue argument was modified");
    return r;
  }
};
struct ZeroSig {  // equal arguments of different bits
  static constexpr int ARGS = 4, WAYS = 2;
  static auto original(int fn) {
    return [fn](double d) {
      for (int a = 0; a < ARGS; ++a)
        if (d == arg(a)) return g_log.enter(fn, a);
      return g_log.enter(fn, -7);
    };
  }
  static double arg(int a) {
    const double args[] = {0.0, 5e-324, -5e-324, HUGE_VAL};
    return args[a];
  }
  template <class W>
  static int call(W& w, int a, int way) {
    return w(a == 0 && way ? -0.0 : arg(a));
  }
};
struct Loose {  // equality and hash of its own: not all of the value counts
  int id;
  int noise;
  bool operator==(const Loose& o) const { return id == o.id; }
  bool operator!=(const Loose& o) const { return id != o.id; }
};
size_t std::hash<Loose>::operator()(const Loose& l) const { return size_t(l.id / 2); }
struct LooseSig {
  static constexpr int ARGS = 4, WAYS = 2;
  static auto original(int fn) {
    return [fn](const Loose& a, Loose b) { return g_log.enter(fn, a.id * 2 + b.id); };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    static int noise = 0;
    Loose x{a / 2, ++noise}, y{a % 2, ++noise};
    return way ? w(x, y) : w(Loose{a / 2, ++noise}, std::move(y));
  }
};
struct NestedSig {  // an argument that is a tuple itself, and an empty one
  static constexpr int ARGS = 4, WAYS = 2;
  using P = std::tuple<int, std::string>;
  static auto original(int fn) {
    return [fn](const P& p, std::tuple<>) {
      return g_log.enter(fn, std::get<0>(p) * 2 + index_of_string(std::get<1>(p)));
    };
  }
  template <class W>
  static int call(W& w, int a, int way) {
    P p(a / 2, key_string(a % 2));
    return way ? w(p, std::tuple<>()) : w(P(p), std::make_tuple());
  }
};
// The original is a function pointer, a std::function, a functor with state
// that only a non-const call operator may use.
template <int Fn>
int pointed(int a) { return g_log.enter(Fn, a); }
struct PointerSig {
  static constexpr int ARGS = 3, WAYS = 2;
  static auto original(int fn) { return fn ? &pointed<1> : &pointed<0>; }
  template <class W>
  static int call(W& w, int a, int way) { return way ? w(int(a)) : w(a); }
};
struct FunctionSig : PointerSig {
  static std::function<int(int)> original(int fn) {
    return [fn](int a) { return g_log.enter(fn, a); };
  }
};
struct MutableSig : PointerSig {
  static auto original(int fn) {
    return [fn, n = 0](int a) mutable {
      ++n;
      return g_log.enter(fn, a);
    };
  }
};

// How to wrap.
struct Plain {
  size_t cap[2];
  static constexpr bool timed = false;
  int64_t ttl = -1;
  size_t capacity(int i) const { return cap[i]; }
  template <class F>
  auto operator()(F f, int i) const { return LRU::wrap(f, cap[i]); }
};
struct PlainInt : Plain {  // the capacity is an int, or an lvalue
  template <class F>
  auto operator()(F f, int i) const {
    int c = int(cap[i]);
    auto w = LRU::wrap(f, c);
    c = 77;
    return w;
  }
};
struct PlainDefault {
  static constexpr bool timed = false;
  int64_t ttl = -1;
  size_t capacity(int) const { return 128; }
  template <class F>
  auto operator()(F f, int) const { return LRU::wrap(f); }
};
template <class D>
struct Timed {
  size_t cap[2];
  D duration;
  static constexpr bool timed = true;
  int64_t ttl = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
  size_t capacity(int i) const { return cap[i]; }
  template <class F>
  auto operator()(F f, int i) const { return LRU::timed_wrap(f, duration, cap[i]); }
};
template <class D>
struct TimedDefault {
  D duration;
  static constexpr bool timed = true;
  int64_t ttl = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
  size_t capacity(int) const { return 128; }
  template <class F>
  auto operator()(F f, int) const { return LRU::timed_wrap(f, duration); }
};

template <class Sig, class W>
static void call(W& w, Memory& m, int fn, int a, int way, bool failing, bool& hit) {
  const Memory::E* e = m.find(a);
  hit = e != nullptr;
  const int before = g_log.calls;
  g_log.fail = failing;
  int r = 0;
  bool thrown = false;
  try {
    r = Sig::call(w, a, way);
  } catch (std::logic_error&) {
    thrown = true;
  }
  g_log.fail = false;
  say("wrapped function ", fn, " with arguments ", a, failing ? " (original throws)" : "", ": ",
      thrown ? "throws" : str(r), g_log.calls == before ? "" : ", called the original");
  if (hit) {
    MC_CHECK(g_log.calls == before, "the original was called although the result is cached");
    MC_CHECK(!thrown, "a call with a cached result threw");
    MC_CHECK(r == e->result, "the cached result ", e->result, " was expected, got ", r);
    return;
  }
  MC_CHECK(g_log.calls == before + 1, "the original was called ", g_log.calls - before,
           " times where its result is not cached");
  MC_CHECK(g_log.last_fn == fn, "another function was called");
  MC_CHECK(g_log.last_key == a, "the original got other arguments: ", g_log.last_key);
  MC_CHECK(thrown == failing, thrown ? "unexpected exception" : "the exception got lost");
  if (thrown) return;
  MC_CHECK(r == g_log.calls, "the result of the original was not returned");
  m.put(a, r);
}

// Two wrapped functions of the same type.
template <class Sig, class Make>
static void two(std::string name, Make make, int depth, int64_t step = 0, bool failing = true) {
  static constexpr int A = Sig::ARGS;
  search_job(
      name, 16,
      [=](Chooser& ch, Ctx& ctx) {
        vclock.now = 1000000000;
        g_log = Log();
        using W = decltype(make(Sig::original(0), 0));
        std::unique_ptr<W> w[2];
        Memory m[2];
        for (int i = 0; i < 2; ++i) {
          w[i] = std::make_unique<W>(make(Sig::original(i), i));
          m[i].cap = make.capacity(i);
          m[i].ttl = make.ttl;
        }
        const int each = A + (failing ? A : 0) + 1;
        const int total = 2 * each + (Make::timed ? 1 : 0);
        const int rotation = ch.choose(Sig::WAYS);
        bool hits = false, misses = false, hit;
        for (int d = 0; d < depth; ++d) {
          int o = ch.choose(total);
          if (d == 1) ch.split();
          ++ctx.transitions;
          if (o == 2 * each) {
            vclock.now += step;
            say("time passes: ", step, " ns");
            continue;
          }
          int i = o / each;
          o %= each;
          if (o < 2 * A && o < each - 1) {
            call<Sig>(*w[i], m[i], i, o % A, (d + rotation) % Sig::WAYS, o >= A, hit);
            (hit ? hits : misses) = true;
          } else {
            say("wrapped function ", i, " is moved");
            w[i] = std::make_unique<W>(std::move(*w[i]));
          }
        }
        // What is cached at the end, in both.
        for (int i = 0; i < 2; ++i)
          for (int a = 0; a < A; ++a) call<Sig>(*w[i], m[i], i, a, a % Sig::WAYS, false, hit);
        if (hits && misses) ++ctx.nontrivial;
      },
      str("two wrapped functions of one type; every history of ", depth, " operations"));
}

// The same held in a std::function, and copies of wrapped functions: the
// values have to be right, whether the copies share results or not.
static void copies(std::string name, size_t cap, int depth) {
  search_job(
      name, 4,
      [=](Chooser& ch, Ctx& ctx) {
        vclock.now = 1000000000;
        int calls = 0;
        auto f = LRU::wrap([&](int a) { ++calls; return a * 10; }, cap);
        using W = decltype(f);
        std::vector<std::unique_ptr<W>> w;
        w.push_back(std::make_unique<W>(std::move(f)));
        std::vector<std::unique_ptr<std::function<int(int)>>> s;
        s.push_back(std::make_unique<std::function<int(int)>>(*w[0]));
        for (int d = 0; d < depth; ++d) {
          int o = ch.choose(8);
          if (d == 1) ch.split();
          ++ctx.transitions;
          const int before = calls;
          if (o < 3) {
            MC_CHECK((*w.back())(o) == o * 10, "wrong result of a copy");
          } else if (o < 6) {
            o -= 3;
            MC_CHECK((*s.back())(o) == o * 10, "wrong result of a std::function");
          } else if (o == 6) {
            w.push_back(std::make_unique<W>(*w.back()));
            if (d % 2) w.erase(w.begin());  // the copied one goes
          } else {
            s.push_back(std::make_unique<std::function<int(int)>>(*w.back()));
            if (d % 2) s.erase(s.begin());
          }
          MC_CHECK(calls <= before + 1, "called twice");
          if (o < 3 && calls > before) ++ctx.nontrivial;
        }
        for (auto& x : w)
          for (int a = 0; a < 3; ++a) MC_CHECK((*x)(a) == a * 10, "wrong result of a copy");
      },
      str("copies, values only; every history of ", depth, " operations"));
}

// A std::function that holds the only wrapper.
template <class Make>
static void held(std::string name, Make make, int depth) {
  search_job(
      name, 4,
      [=](Chooser& ch, Ctx& ctx) {
        g_log = Log();
        vclock.now = 1000000000;
        std::function<int(int)> w[2];
        Memory m[2];
        for (int i = 0; i < 2; ++i) {
          w[i] = make(PointerSig::original(i), i);
          m[i].cap = make.capacity(i);
          m[i].ttl = make.ttl;
        }
        bool hit;
        for (int d = 0; d < depth; ++d) {
          int o = ch.choose(7);
          if (d == 1) ch.split();
          ++ctx.transitions;
          if (o < 6) {
            call<PointerSig>(w[o / 3], m[o / 3], o / 3, o % 3, d % 2, false, hit);
            if (hit) ++ctx.nontrivial;
          } else {
            std::function<int(int)> x = std::move(w[1]);
            w[1] = std::move(x);
          }
        }
      },
      str("held in std::function; every history of ", depth, " operations"));
}

// Recursion through the wrapped function itself.
struct Recursive {
  std::function<int(int)> w;
  Memory m;
  std::vector<std::pair<int, bool>> real, expected;  // argument, called/finished
  int fib(int n) {
    real.push_back({n, false});
    int r = n < 2 ? n : w(n - 1) + w(n - 2);
    real.push_back({n, true});
    return r;
  }
  int model(int n) {
    if (auto e = m.find(n)) return e->result;
    expected.push_back({n, false});
    int r = n;
    if (n >= 2) {
      r = model(n - 1);
      r += model(n - 2);
    }
    expected.push_back({n, true});
    m.put(n, r);
    return r;
  }
};
static void recursion(std::string name, int caps, int upto) {
  range_job(
      name, 2, int64_t(caps) * upto * upto,
      [=](int64_t i) {
        int cap = int(i % caps), a = int(i / caps % upto), b = int(i / caps / upto);
        vclock.now = 1000000000;
        Recursive r;
        r.w = LRU::wrap([&](int n) { return r.fib(n); }, size_t(cap));
        r.m.cap = size_t(cap);
        for (int n : {a, b, a}) {
          int expected = r.model(n);
          int got = r.w(n);
          MC_CHECK(got == expected, "a recursive function returned ", got, ", expected ", expected);
          MC_CHECK(r.real == r.expected, "the original was called ", r.real.size() / 2, " times, expected ",
                   r.expected.size() / 2, " (or in another order)");
        }
      },
      "recursion through the wrapped function: capacities, arguments");
}

// Capacities and the policy at scale: n distinct arguments, then every k-th
// again, then all.
template <class Make>
static void scale(std::string name, Make make, int caps, int args, int steps) {
  range_job(
      name, 4, int64_t(caps) * args * steps,
      [=](int64_t i) {
        int cap = int(i % caps), n = int(i / caps % args) + 1, k = int(i / caps / args) + 1;
        vclock.now = 1000000000;
        g_log = Log();
        size_t real_cap = 0;
        auto w = make(size_t(cap), real_cap);
        Memory m;
        m.cap = real_cap;
        bool hit;
        for (int a = 0; a < n; ++a) call<PointerSig>(w, m, 0, a, 0, false, hit);
        for (int a = 0; a < n; a += k) call<PointerSig>(w, m, 0, a, 1, false, hit);
        for (int a = 0; a < n; ++a) call<PointerSig>(w, m, 0, a, 0, false, hit);
        for (int a = n - 1; a >= 0; a -= k) call<PointerSig>(w, m, 0, a, 1, false, hit);
      },
      "capacities, numbers of arguments, strides");
}

// All pairs of arguments keep their own result.
static void pairs(std::string name, int n) {
  range_job(
      name, 2, int64_t(n),
      [=](int64_t i) {
        vclock.now = 1000000000;
        int calls = 0;
        const int shift = int(i) - n / 2;
        auto w = LRU::wrap([&](int a, long b, short c) { ++calls; return std::make_tuple(a, b, c); },
                           size_t(n * n * 2));
        for (int round = 0; round < 2; ++round) {
          for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
              for (short c = 0; c < 2; ++c)
                MC_CHECK(w(a + shift, long(b) * 65536 - shift, c) ==
                             std::make_tuple(a + shift, long(b) * 65536 - shift, c),
                         "the result of other arguments was returned");
          MC_CHECK(calls == n * n * 2, "called ", calls, " times for ", n * n * 2, " combinations");
        }
      },
      "all combinations of three arguments");
}

// Arguments of other types, equal or not, do not disturb each other.
static void generic(std::string name, size_t cap, int depth) {
  search_job(
      name, 4,
      [=](Chooser& ch, Ctx& ctx) {
        vclock.now = 1000000000;
        auto f = [](auto a, auto b) { return str(sizeof a, "/", a, "/", sizeof b, "/", b); };
        auto w = LRU::wrap(f, cap);
        auto v = LRU::wrap(f);
        for (int d = 0; d < depth; ++d) {
          int o = ch.choose(12);
          if (d == 1) ch.split();
          ++ctx.transitions;
          auto use = [&](auto a, auto b) {
            auto x = a;
            auto y = b;
            std::string expected = f(a, b);
            std::string got = o % 2 ? w(x, y) : w(std::move(a), std::move(b));
            MC_CHECK(got == expected, "result ", got, ", expected ", expected);
            got = v(x, y);
            MC_CHECK(got == expected, "result ", got, ", expected ", expected);
            MC_CHECK(f(x, y) == expected, "an lvalue argument was modified");
          };
          switch (o / 2) {
            case 0: use(1, 2); break;
            case 1: use(1L, 2); break;
            case 2: use(1, 2L); break;
            case 3: use(std::string("1"), 2); break;
            case 4: use('1', 2.0); break;
            default: use(1, 3); break;
          }
        }
        ++ctx.nontrivial;
      },
      str("calls with arguments of different types, values only; every history of ", depth, " calls"));
}

void mc::register_jobs(bool thorough) {
  const bool more = thorough && !sanitized;
  const int d = sanitized ? (thorough ? 4 : 3) : (thorough ? 5 : 4);
#if VARIANT == 0
  for (auto c : {std::array<size_t, 2>{1, 2}, {2, 2}, {0, 1}, {2, 128}}) {
    two<PairSig>(str("pair-", c[0], "-", c[1]), Plain{{c[0], c[1]}}, d);
    two<PointerSig>(str("pointer-", c[0], "-", c[1]), Plain{{c[0], c[1]}}, d);
  }
  two<PairSig>("pair-deep", Plain{{1, 2}}, more ? 6 : d, 0, false);
  two<IntSig>("int-3-2", Plain{{3, 2}}, d);
  two<IntSig>("int-deep", Plain{{2, 1}}, d + 1, 0, false);
  two<IntSig>("int-lvalue-cap", PlainInt{{2, 1}}, d);
  two<IntSig>("int-default", PlainDefault{}, d);
  held("held", Plain{{2, 2}}, d + 1);
  held("held-default", PlainDefault{}, d + 1);
#elif VARIANT == 1
  two<StringSig>("string", Plain{{2, 1}}, d);
  two<RvalueSig>("rvalue", Plain{{2, 1}}, d);
  two<ReferenceSig>("reference", Plain{{2, 1}}, d);
  two<MutatingSig>("mutating", Plain{{2, 1}}, d);
  two<NoSig>("no-arguments", Plain{{1, 0}}, d + 1);
  two<NoSig>("no-arguments-2", Plain{{2, 1}}, d + 1);
  two<ZeroSig>("equal-doubles", Plain{{2, 1}}, d);
  two<LooseSig>("loose", Plain{{2, 3}}, d);
  two<NestedSig>("nested", Plain{{2, 1}}, d);
  two<ManySig>("many", Plain{{2, 1}}, d);
  two<ManySig>("many-5", Plain{{5, 4}}, d);
  two<FunctionSig>("std-function", Plain{{1, 2}}, d);
  two<MutableSig>("mutable", Plain{{1, 2}}, d);
#elif VARIANT == 2
  two<IntSig>("timed-ms", Timed<Ms>{{2, 1}, Ms(2)}, d, 1000000);
  two<IntSig>("timed-ms-1", Timed<Ms>{{2, 1}, Ms(2)}, d, 3000000);
  two<IntSig>("timed-us", Timed<Us>{{2, 2}, Us(2000)}, d, 1500000);
  two<IntSig>("timed-0", Timed<Ms>{{2, 1}, Ms(0)}, d, 1000000);
  two<IntSig>("timed-s", Timed<Sec>{{2, 2}, Sec(1)}, d, 1001000000);
  two<StringSig>("timed-string", TimedDefault<Sec>{Sec(1)}, d, 600000000);
  two<NoSig>("timed-no-arguments", Timed<Ms>{{1, 2}, Ms(2)}, d + 1, 1000000);
  two<IntSig>("timed-deep", Timed<Ms>{{2, 1}, Ms(1)}, d + 1, 2000000, false);
  two<RvalueSig>("timed-rvalue", TimedDefault<Min>{Min(1)}, d, 30000000001);
  held("timed-held", TimedDefault<Ms>{Ms(5)}, d + 1);
#elif VARIANT == 3
  copies("copies", 1, d + 2);
  copies("copies-2", 2, d + 2);
  generic("generic", 1, d);
  generic("generic-5", 5, d);
  recursion("recursion", 8, sanitized ? 8 : 14);
  pairs("pairs", sanitized ? 8 : more ? 40 : 16);
  const int size = sanitized ? 10 : more ? 60 : 24;
  scale("scale", [](size_t c, size_t& real) { real = c; return LRU::wrap(PointerSig::original(0), c); }, size, size, 4);
  scale("scale-default",
        [](size_t, size_t& real) { real = 128; return LRU::wrap(PointerSig::original(0)); }, 1, sanitized ? 140 : 270, 4);
  scale("scale-timed", [](size_t c, size_t& real) { real = c; return LRU::timed_wrap(PointerSig::original(0), Sec(1), c); },
        size, size, 4);
#else
  wrapped_units(more);
  wrapped_clock(more);
#endif
}
