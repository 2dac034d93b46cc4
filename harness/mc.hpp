// Explorer core: jobs, traces, the virtual clock, fault injection, crash and
// hang reporting.
//
// A *job* enumerates a finite space of executions of the real code. Every
// execution is identified by a *trace*, a vector of ints (choice indices),
// which is written to a memory-mapped status file before it runs, so that the
// driver (check.py) knows the history even if the code under test crashes,
// terminates or hangs. `--replay` runs a single trace again.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#ifndef VARIANT
#define VARIANT 0
#endif

#if defined(__SANITIZE_ADDRESS__)
#define MC_SAN 1
#else
#define MC_SAN 0
#endif

namespace mc {

constexpr bool sanitized = MC_SAN;

// ---------------------------------------------------------------- the clock
// std::chrono::steady_clock::now() and system_clock::now() are defined by this
// binary (see the end of this file), so all code in it sees virtual time.
struct VirtualClock {
  int64_t now = 1000000000;          // nanoseconds
  int64_t (*on_read)() = nullptr;    // called at every reading if set
  long reads = 0;
};
inline VirtualClock vclock;

inline int64_t read_clock() {
  ++vclock.reads;
  if (vclock.on_read) return vclock.on_read();
  return vclock.now;
}

// ------------------------------------------------------------------ failures
struct Fail {
  std::string what;
};

template <class... A>
std::string str(A&&... a) {
  std::ostringstream s;
  ((s << a), ...);
  return s.str();
}

template <class... A>
[[noreturn]] void fail(A&&... a) {
  throw Fail{str(std::forward<A>(a)...)};
}

#define MC_CHECK(cond, ...)                 \
  do {                                      \
    if (!(cond)) ::mc::fail(__VA_ARGS__);   \
  } while (0)

// ------------------------------------------------------------------- status
struct Status {
  volatile uint64_t beat;   // executions started
  volatile int32_t len;     // length of the trace
  volatile int32_t done;
  volatile int32_t trace[4000];
};
inline Status dummy_status;
inline Status* status = &dummy_status;

inline bool verbose = false;
template <class... A>
void say(A&&... a) {
  if (verbose) std::cout << str(std::forward<A>(a)...) << "\n" << std::flush;
}

// --------------------------------------------------------------------- jobs
struct Ctx {
  int part = 0, parts = 1;
  bool thorough = false;
  // What was covered.
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0,
           nontrivial = 0;
  uint64_t distinct_outcomes = 0;
  bool exhaustive = true;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> extra;
  std::string bounds;

  uint64_t ordinal = 0;
  // Partition of the work: true if the next unit belongs to this part.
  bool mine() {
    return static_cast<int>(ordinal++ % parts) == part;
  }
  void sample(const std::string& s) {
    if (samples.size() < 6) samples.push_back(s);
  }
};

using Trace = std::vector<int>;

inline void begin_trace(const int* trace, int n) {
  status->len = 0;
  for (int i = 0; i < n && i < 4000; ++i) status->trace[i] = trace[i];
  status->len = n;
  status->beat = status->beat + 1;
}
inline void begin_trace(const Trace& t) {
  begin_trace(t.data(), static_cast<int>(t.size()));
}
inline void beat() {
  status->beat = status->beat + 1;
}

struct Job {
  std::string name;
  int parts;
  std::function<void(Ctx&)> explore;      // throws Fail (trace is in status)
  std::function<void(const Trace&)> run;  // one execution; throws Fail
};
inline std::vector<Job>& jobs() {
  static std::vector<Job> j;
  return j;
}
inline void job(std::string name,
                int parts,
                std::function<void(Ctx&)> explore,
                std::function<void(const Trace&)> run) {
  jobs().push_back({std::move(name), parts, std::move(explore), std::move(run)});
}

// -------------------------------------------- stateless search over choices
// A scenario is a deterministic function of the choices it asks for; the
// search runs it once for every sequence of choices.
struct Chooser {
  Trace seq;
  std::vector<int> arity;
  size_t pos = 0;
  size_t splits = 0;
  struct Skip {};
  Ctx* ctx = nullptr;
  uint64_t split_ordinal = 0;
  Trace last_split;
  bool last_mine = true, split_done = false;

  int choose(int n) {
    if (n <= 0) fail("harness error: choose(", n, ")");
    if (pos == seq.size()) {
      seq.push_back(0);
      arity.push_back(n);
    } else if (pos >= arity.size()) {
      arity.push_back(n);
    }
    arity[pos] = n;
    int c = seq[pos];
    if (c >= n) c = seq[pos] = 0;
    ++pos;
    if (status->len < static_cast<int>(pos) && pos <= 4000) {
      status->trace[pos - 1] = c;
      status->len = static_cast<int>(pos);
    }
    return c;
  }
  bool flag() {
    return choose(2) == 1;
  }
  // Everything chosen so far is a unit of the partition over processes.
  void split() {
    if (!ctx || split_done) return;  // only the first one counts
    split_done = true;
    Trace prefix(seq.begin(), seq.begin() + pos);
    if (prefix != last_split || split_ordinal == 0) {
      last_split = prefix;
      last_mine = (split_ordinal % ctx->parts) ==
                  static_cast<uint64_t>(ctx->part);
      ++split_ordinal;
    }
    if (!last_mine) throw Skip{};
  }
};

template <class Scenario>
void search(Ctx& ctx, Scenario scenario) {
  Chooser ch;
  ch.ctx = &ctx;
  for (;;) {
    ch.pos = 0;
    ch.split_done = false;
    begin_trace(ch.seq);
    bool ran = true;
    try {
      scenario(ch);
    } catch (Chooser::Skip&) {
      ran = false;
    }
    ch.seq.resize(ch.pos);
    ch.arity.resize(ch.pos);
    if (ran) ++ctx.evaluations;
    while (!ch.seq.empty() && ch.seq.back() + 1 >= ch.arity.back()) {
      ch.seq.pop_back();
      ch.arity.pop_back();
    }
    if (ch.seq.empty()) break;
    ++ch.seq.back();
  }
}

template <class Scenario>
void search_job(std::string name, int parts, Scenario scenario,
                std::string bounds = "") {
  job(
      std::move(name), parts,
      [scenario, bounds](Ctx& ctx) {
        ctx.bounds = bounds;
        search(ctx, [&](Chooser& ch) { scenario(ch, ctx); });
      },
      [scenario](const Trace& t) {
        Chooser ch;
        ch.seq = t;
        Ctx ctx;
        begin_trace(t);
        scenario(ch, ctx);
      });
}

// One execution for every number below count.
inline void range_job(std::string name, int parts, int64_t count,
                      std::function<void(int64_t)> one, std::string bounds) {
  search_job(
      std::move(name), parts,
      [=](Chooser& ch, Ctx& ctx) {
        int64_t i = ch.choose(int(count));
        ch.split();
        say("number ", i, " of ", count);
        one(i);
        ++ctx.nontrivial;
      },
      str(bounds, " (", count, ")"));
}

// --------------------------------------------------------------------- main
void register_jobs(bool thorough);  // defined by each harness

inline std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

inline int run_main(int argc, char** argv) {
  std::string mode, name, status_path, out_path, trace_path, tier = "quick";
  int part = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list" || a == "--run" || a == "--replay") mode = a;
    else if (a == "--tier") tier = next();
    else if (a == "--job") name = next();
    else if (a == "--part") part = std::stoi(next());
    else if (a == "--status") status_path = next();
    else if (a == "--out") out_path = next();
    else if (a == "--trace") trace_path = next();
    else {
      std::cerr << "unknown argument " << a << "\n";
      return 64;
    }
  }
  rlimit no_core{0, 0};
  setrlimit(RLIMIT_CORE, &no_core);
  register_jobs(tier == "thorough");
  if (mode == "--list") {
    for (auto& j : jobs()) std::cout << j.name << " " << j.parts << "\n";
    return 0;
  }
  Job* j = nullptr;
  for (auto& x : jobs())
    if (x.name == name) j = &x;
  if (!j) {
    std::cerr << "no such job: " << name << "\n";
    return 64;
  }
  if (!status_path.empty()) {
    int fd = open(status_path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) return 65;
    void* p =
        mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 65;
    status = static_cast<Status*>(p);
  }
  if (mode == "--replay") {
    Trace t;
    std::ifstream in(trace_path);
    for (int x; in >> x;) t.push_back(x);
    verbose = true;
    try {
      j->run(t);
    } catch (Fail& f) {
      std::cout << "FAIL " << f.what << "\n" << std::flush;
      return 10;
    }
    std::cout << "PASS\n";
    return 0;
  }
  Ctx ctx;
  ctx.part = part;
  ctx.parts = j->parts;
  ctx.thorough = tier == "thorough";
  int rc = 0;
  std::string what;
  try {
    j->explore(ctx);
  } catch (Fail& f) {
    rc = 10;
    what = f.what;
  }
  status->done = 1;
  std::ofstream out(out_path);
  out << "{\"job\":" << json(name) << ",\"part\":" << part
      << ",\"states\":" << ctx.states << ",\"transitions\":" << ctx.transitions
      << ",\"traces\":" << ctx.traces << ",\"evaluations\":" << ctx.evaluations
      << ",\"nontrivial\":" << ctx.nontrivial << ",\"exhaustive\":"
      << (ctx.exhaustive ? "true" : "false") << ",\"bounds\":"
      << json(ctx.bounds) << ",\"fail\":" << json(what) << ",\"samples\":[";
  for (size_t i = 0; i < ctx.samples.size(); ++i)
    out << (i ? "," : "") << json(ctx.samples[i]);
  out << "],\"extra\":{";
  bool first = true;
  for (auto& e : ctx.extra) {
    out << (first ? "" : ",") << json(e.first) << ":" << e.second;
    first = false;
  }
  out << "}}\n";
  out.close();
  return rc;
}
}  // namespace mc

// ------------------------------------------------ interposed clock functions
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(mc::read_clock()));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(std::chrono::duration_cast<duration>(
      std::chrono::nanoseconds(mc::read_clock())));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

int main(int argc, char** argv) {
  return mc::run_main(argc, argv);
}
