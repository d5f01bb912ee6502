#include "pbt.hpp"
#include "ucd.hpp"
#include "gen.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
static std::map<std::string, long> g_labels;
static std::vector<std::string> g_excluded;

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
RandomSource::RandomSource(uint64_t seed, uint64_t index) {
  uint64_t x = seed * 0x2545F4914F6CDD1Dull + index;
  splitmix(x);
  x ^= index << 1;
  for (int i = 0; i < 4; i++) s[i] = splitmix(x);
}
uint64_t RandomSource::bits(int) {
  auto rotl = [](uint64_t v, int k) { return (v << k) | (v >> (64 - k)); };
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r >> 8;
}

void Ctx::label(const char* n) { if (stats) g_labels[n]++; }
void Ctx::fail(const char* fmt, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure{buf};
}
bool Ctx::excluded(const char* f) const {
  return std::find(g_excluded.begin(), g_excluded.end(), f) != g_excluded.end();
}

std::string show(const std::vector<int>& t) {
  std::string r;
  char b[16];
  size_t n = 0;
  for (int c : t) {
    snprintf(b, sizeof b, "%s%04X", r.empty() ? "" : " ", c);
    r += b;
    if (++n == 120) { snprintf(b, sizeof b, " ...(%zu)", t.size()); r += b; break; }
  }
  return "[" + r + "]";
}
std::string show_octets(const std::string& s) {
  std::string r;
  char b[16];
  for (size_t i = 0; i < s.size(); i++) {
    snprintf(b, sizeof b, "%s%02X", i ? " " : "", (unsigned char)s[i]);
    r += b;
    if (i == 160) { r += " ..."; break; }
  }
  return "<" + r + ">";
}
std::string octets(const Field& f) {
  std::string s;
  for (int v : f) s += char(v & 0xFF);
  return s;
}

// ---------------------------------------------------------------- cases
static void sanitize(Property& p, Case& c) {
  std::vector<FieldSpec> fs = p.fields();
  c.resize(fs.size());
  for (size_t i = 0; i < fs.size(); i++) {
    Field& f = c[i];
    switch (fs[i].kind) {
    case SCALARS:
      f.erase(std::remove_if(f.begin(), f.end(), [](int v) { return !ucd::is_scalar(v); }), f.end());
      break;
    case OCTETS:
      for (int& v : f) v &= 0xFF;
      break;
    case INTS:
      for (int& v : f) if (v < 0) v = v == INT32_MIN ? 0 : -v;
      break;
    case ANYINTS:
      break;
    }
  }
}
static uint64_t hash_case(const Case& c) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (const Field& f : c) {
    for (int v : f) { h ^= uint32_t(v) + 1; h *= 0x100000001b3ull; h ^= h >> 29; }
    h ^= 0xF1E1D; h *= 0x100000001b3ull; h ^= h >> 31;
  }
  return h;
}
static std::string show_case(Property& p, const Case& c) {
  std::vector<FieldSpec> fs = p.fields();
  std::string r;
  for (size_t i = 0; i < fs.size(); i++) {
    if (i) r += "; ";
    r += fs[i].name;
    r += "=";
    if (fs[i].kind == SCALARS) r += show(c[i]);
    else if (fs[i].kind == OCTETS) r += show_octets(octets(c[i]));
    else {
      r += "(";
      for (size_t k = 0; k < c[i].size(); k++) {
        if (k) r += ' ';
        r += std::to_string(c[i][k]);
        if (k == 60) { r += " ..."; break; }
      }
      r += ")";
    }
  }
  return r;
}

// Runs one case here. Returns "" or what went wrong.
static std::string run_here(Property& p, const Case& c, Ctx& ctx) {
  try {
    p.run(c, ctx);
    return "";
  } catch (const Failure& f) {
    return f.msg.empty() ? "failed" : f.msg;
  } catch (const std::exception& e) {
    return std::string("unexpected exception: ") + e.what();
  }
}

// ------------------------------------------------------------- watchdog
static volatile uint64_t g_progress;       // changes with every case
#ifdef PBT_SANITIZED
static int CASE_SECONDS = 40;
#else
static int CASE_SECONDS = 10;
#endif
static uint64_t address_space = 1536ul << 20;
static volatile sig_atomic_t g_limit = 10; // seconds of CPU for one case
static void on_tick(int) {
  static uint64_t seen;
  static int same;
  if (seen == g_progress) {
    if (++same >= g_limit) _exit(97);
  } else {
    seen = g_progress;
    same = 0;
  }
}
static void watchdog(int seconds) {
  g_limit = seconds;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it = { { 1, 0 }, { 1, 0 } };
  setitimer(ITIMER_VIRTUAL, &it, 0);
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_SANITIZED)
  struct rlimit rl = { address_space, address_space };
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit core = { 0, 0 };
  setrlimit(RLIMIT_CORE, &core);
}
static std::string describe_status(int st) {
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 97) return "does not terminate (10 s of CPU time on one case)";
    if (WEXITSTATUS(st) == 98) return "the address sanitizer reports an invalid access";
    return "exits with status " + std::to_string(WEXITSTATUS(st));
  }
  return std::string("crashes: ") + strsignal(WTERMSIG(st));
}

// Runs cases, in order, in a child process. Empty result: all passed.
static std::string run_forked(Property& p, const std::vector<Case>& cs, int limit, bool quiet) {
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(3); }
  fflush(0);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    close(fd[0]);
    if (quiet) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 2);
    }
    watchdog(limit);
    for (const Case& c : cs) {
      g_progress++;
      Ctx ctx;
      std::string m = run_here(p, c, ctx);
      if (!m.empty()) {
        if (write(fd[1], m.data(), m.size()) < 0) {}
        _exit(42);
      }
    }
    _exit(0);
  }
  close(fd[1]);
  std::string msg;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, n);
  close(fd[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return msg.empty() ? "failed" : msg;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    fprintf(stderr, "a worker was killed from outside\n");
    exit(3);
  }
  return describe_status(st);
}

// -------------------------------------------------------------- shrinking
struct Shrinker {
  Property& p;
  std::chrono::steady_clock::time_point until;
  long tries = 0;
  int limit;
  std::string msg;
  bool out() { return tries > 6000 || std::chrono::steady_clock::now() > until; }
  bool still(const Case& c) {
    tries++;
    std::string m = run_forked(p, std::vector<Case>(1, c), limit, true);
    if (m.empty()) return false;
    msg = m;
    return true;
  }
  bool drop_chunks(Case& best) {
    bool any = false;
    for (size_t f = 0; f < best.size(); f++) {
      for (size_t len = std::max<size_t>(1, best[f].size()); len >= 1; len /= 2) {
        for (size_t at = 0; at < best[f].size() && !out();) {
          Case c = best;
          size_t k = std::min(len, c[f].size() - at);
          c[f].erase(c[f].begin() + at, c[f].begin() + at + k);
          sanitize(p, c);
          if (c != best && still(c)) { best = c; any = true; }
          else at += len;
        }
        if (out()) return any;
      }
    }
    return any;
  }
  bool simplify(Case& best) {
    bool any = false;
    std::vector<FieldSpec> fs = p.fields();
    for (size_t f = 0; f < best.size(); f++)
      for (size_t i = 0; i < best[f].size() && !out(); i++) {
        std::vector<int> cand;
        int v = best[f][i];
        if (fs[f].kind == SCALARS) {
          for (int c : { 0x61, 0x300, 0xE9, 0x915, 0x1F1E6 }) cand.push_back(c);
        } else if (fs[f].kind == OCTETS) {
          for (int c : { 0x61, 0x80, 0xC3, 0xE0, 0xF0 }) cand.push_back(c);
        } else {
          for (int c : { 0, 1, 2, v % 16, v % 64, v / 2, v - 1 }) cand.push_back(c);
        }
        for (int c : cand) {
          // only ever towards the front of the list, so this ends
          if (c == v) break;
          if (fs[f].kind >= INTS && (v >= 0) && (c > v || c < 0)) continue;
          Case n = best;
          n[f][i] = c;
          sanitize(p, n);
          if (n == best) continue;
          if (out()) break;
          if (still(n)) { best = n; any = true; break; }
        }
      }
    return any;
  }
  void go(Case& c) {
    for (int round = 0; round < 12 && !out(); round++) {
      bool a = drop_chunks(c);
      bool b = simplify(c);
      if (!a && !b) break;
    }
  }
};

// ----------------------------------------------------------------- replay
static void write_replay(Property& p, const std::string& path, const std::vector<Case>& cs,
                         const std::string& msg) {
  std::ofstream o(path);
  o << "# property " << p.id() << "\n";
  std::istringstream is(msg);
  std::string line;
  while (std::getline(is, line)) o << "# " << line << "\n";
  std::vector<FieldSpec> fs = p.fields();
  for (const Case& c : cs) {
    if (cs.size() < 20) o << "# " << show_case(p, c) << "\n";
    o << "case\n";
    for (size_t f = 0; f < fs.size(); f++) {
      o << fs[f].name;
      for (int v : c[f]) o << ' ' << v;
      o << "\n";
    }
  }
}
static std::vector<Case> read_replay(Property& p, const std::string& path) {
  std::ifstream in(path);
  if (!in) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
  std::vector<FieldSpec> fs = p.fields();
  std::vector<Case> cs;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string w;
    is >> w;
    if (w == "case") { cs.push_back(Case(fs.size())); continue; }
    if (cs.empty()) continue;
    for (size_t f = 0; f < fs.size(); f++)
      if (w == fs[f].name) {
        int v;
        while (is >> v) cs.back()[f].push_back(v);
      }
  }
  for (Case& c : cs) sanitize(p, c);
  return cs;
}

// ----------------------------------------------------------------- main
struct Options {
  std::string tier = "quick", out, replays = ".", data = "data", replay, shrink;
  uint64_t seed = 1, cases = 1000;
  int workers = 8;
  bool no_enum = false;
};

static std::string json(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c > 0x7e) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

struct Shared {
  volatile uint64_t first_bad;           // smallest failing index so far
  struct { volatile uint64_t current; volatile uint64_t done; } w[64];
};

struct Engine {
  Property& p;
  Options& o;
  uint64_t n_enum, n_big, total;
  Engine(Property& pp, Options& oo) : p(pp), o(oo) {
    n_enum = o.no_enum ? 0 : p.enum_count(o.tier == "thorough");
    n_big = p.big() > 0 && o.cases > 100 ? gen::BIG : 0;
    total = n_enum + n_big + o.cases;
  }
  Case make(uint64_t i) {
    Case c(p.fields().size());
    if (i < n_enum) {
      p.enum_case(i, c);
    } else if (i < n_enum + n_big) {
      RandomSource s(o.seed, (uint64_t(1) << 60) + i - n_enum);
      p.gen(s, c);
      if (p.fields()[0].kind == OCTETS) gen::big_octets(i - n_enum, c[0], p.big());
      else gen::big(i - n_enum, c[0], p.big());
    } else {
      RandomSource s(o.seed, i - n_enum - n_big);
      p.gen(s, c);
    }
    sanitize(p, c);
    return c;
  }
  std::string scratch(int w, const char* what) {
    return o.out + "." + what + std::to_string(w);
  }

  static double cpu() {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }
  void worker(int w, Shared* sh) {
    watchdog(CASE_SECONDS);
    double slowest = 0;
    uint64_t evals = 0, checks = 0, interesting = 0;
    std::vector<uint64_t> hashes;
    std::vector<std::pair<uint64_t, std::string>> samples;
    uint64_t next_sample = 0;
    std::string failure;
    for (uint64_t i = w; i < total; i += o.workers) {
      if (sh->first_bad <= i) break;
      sh->w[w].current = i;
      g_progress++;
      Case c = make(i);
      Ctx ctx;
      double begin = cpu();
      std::string m = run_here(p, c, ctx);
      slowest = std::max(slowest, cpu() - begin);
      evals++;
      checks += ctx.checks;
      if (!m.empty()) {
        failure = m;
        uint64_t old = sh->first_bad;
        while (i < old && !__sync_bool_compare_and_swap(&sh->first_bad, old, i)) old = sh->first_bad;
        break;
      }
      if (ctx.interesting) {
        interesting++;
        hashes.push_back(hash_case(c));
        if (i >= next_sample) {
          std::string s = show_case(p, c);
          samples.push_back(std::make_pair(i, s.size() > 600 ? s.substr(0, 600) + " ..." : s));
          next_sample = i + std::max<uint64_t>(1, i < n_enum ? n_enum / 3 : o.cases / 9);
          if (i < n_enum && next_sample > n_enum) next_sample = n_enum + o.workers;
        }
      }
    }
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    FILE* f = fopen(scratch(w, "hashes").c_str(), "wb");
    if (!f || fwrite(hashes.data(), 8, hashes.size(), f) != hashes.size()) _exit(3);
    fclose(f);
    std::ofstream so(scratch(w, "stats"));
    so << "evals " << evals << "\nchecks " << checks << "\ninteresting " << interesting << "\nslowest " << long(slowest * 1e6) << "\n";
    for (auto& l : g_labels) so << "label " << l.second << " " << l.first << "\n";
    for (auto& s : samples) so << "sample " << s.first << " " << s.second << "\n";
    so.close();
    sh->w[w].done = 1;
    _exit(failure.empty() ? 0 : 42);
  }

  int go() {
    auto t0 = std::chrono::steady_clock::now();
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->first_bad = UINT64_MAX;
    std::vector<pid_t> pids;
    std::vector<int> st(o.workers);
    fflush(0);
    for (int w = 0; w < o.workers; w++) {
      sh->w[w].current = UINT64_MAX;
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); exit(3); }
      if (pid == 0) worker(w, sh);
      pids.push_back(pid);
    }
    for (int left = o.workers; left > 0;) {
      int s;
      pid_t pid = wait(&s);
      if (pid < 0) { if (errno == EINTR) continue; break; }
      for (int w = 0; w < o.workers; w++) if (pids[w] == pid) {
        st[w] = s;
        left--;
        if (WIFEXITED(s) && (WEXITSTATUS(s) == 0 || WEXITSTATUS(s) == 42)) continue;
        if ((WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL) || (WIFEXITED(s) && WEXITSTATUS(s) == 3)) {
          fprintf(stderr, "a worker was ended from outside, nothing can be said\n");
          for (pid_t q : pids) kill(q, SIGKILL);
          exit(3);
        }
        uint64_t i = sh->w[w].current;
        if (i == UINT64_MAX) { fprintf(stderr, "a worker failed to start: %s\n", describe_status(s).c_str()); exit(3); }
        uint64_t old = sh->first_bad;
        while (i < old && !__sync_bool_compare_and_swap(&sh->first_bad, old, i)) old = sh->first_bad;
      }
    }
    // merge
    uint64_t evals = 0, checks = 0, interesting = 0, slowest = 0;
    std::map<std::string, long> labels;
    std::map<uint64_t, std::string> samples;
    std::vector<uint64_t> hashes;
    for (int w = 0; w < o.workers; w++) {
      std::ifstream in(scratch(w, "stats"));
      std::string line, word;
      while (std::getline(in, line)) {
        std::istringstream is(line);
        uint64_t n;
        is >> word >> n;
        std::string rest;
        std::getline(is, rest);
        if (!rest.empty()) rest.erase(0, 1);
        if (word == "evals") evals += n;
        else if (word == "checks") checks += n;
        else if (word == "interesting") interesting += n;
        else if (word == "slowest") slowest = std::max(slowest, n);
        else if (word == "label") labels[rest] += n;
        else if (word == "sample") samples[n] = rest;
      }
      std::ifstream h(scratch(w, "hashes"), std::ios::binary);
      uint64_t v;
      while (h.read((char*)&v, 8)) hashes.push_back(v);
      unlink(scratch(w, "stats").c_str());
      unlink(scratch(w, "hashes").c_str());
    }
    std::sort(hashes.begin(), hashes.end());
    uint64_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();

    std::string replay, message;
    int rc = 0;
    if (sh->first_bad != UINT64_MAX) {
      rc = 1;
      report(sh->first_bad, replay, message);
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ofstream jo(o.out);
    jo << "{\"evaluations\":" << evals << ",\"interesting\":" << interesting
       << ",\"distinct\":" << distinct << ",\"checks\":" << checks
       << ",\"slowest_s\":" << slowest * 1e-6 << ",\"large\":" << n_big << ",\"large_size\":" << (n_big ? p.big() : 0)
       << ",\"enumerated\":" << n_enum << ",\"enum_what\":" << json(p.enum_what(o.tier == "thorough"))
       << ",\"rule\":" << json(p.rule()) << ",\"wall_s\":" << wall << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { jo << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
    jo << "},\"samples\":[";
    // spread the samples over the run
    std::vector<std::string> all;
    for (auto& s : samples) all.push_back(s.second);
    size_t step = std::max<size_t>(1, all.size() / 12);
    first = true;
    for (size_t i = 0; i < all.size(); i += step) { jo << (first ? "" : ",") << json(all[i]); first = false; }
    jo << "],\"violation\":" << (rc ? "true" : "false") << ",\"replay\":" << json(replay)
       << ",\"message\":" << json(message) << "}\n";
    return rc;
  }

  std::string replay_name(const std::vector<Case>& cs) {
    uint64_t h = 0;
    for (const Case& c : cs) h = h * 31 + hash_case(c);
    char b[40];
    snprintf(b, sizeof b, "-%012llx.case", (unsigned long long)(h & 0xffffffffffffull));
    return o.replays + "/" + p.id() + b;
  }

  void report(uint64_t bad, std::string& replay, std::string& message) {
    Case c = make(bad);
    std::vector<Case> cs(1, c);
    std::string m = run_forked(p, cs, CASE_SECONDS, true);
    if (!m.empty()) {
      bool hang = m.find("terminate") != std::string::npos;
      Shrinker s{p, std::chrono::steady_clock::now() + std::chrono::seconds(60), 0, hang ? 2 : CASE_SECONDS, m};
      s.go(c);
      cs[0] = c;
      std::string again = run_forked(p, cs, CASE_SECONDS, true);
      message = again.empty() ? m : again;
      if (again.empty()) cs[0] = make(bad);
    } else {
      // The case passes on its own: look for the history that breaks it.
      // The cases of one worker ran in one process, one after the other.
      std::vector<Case> all;
      for (uint64_t i = bad % o.workers; i <= bad; i += o.workers) all.push_back(make(i));
      message = "only after other cases in the same process";
      size_t k = 2;
      bool found = false;
      for (;; k *= 2) {
        k = std::min(k, all.size());
        cs.assign(all.end() - k, all.end());
        m = run_forked(p, cs, CASE_SECONDS, true);
        if (!m.empty()) { found = true; break; }
        if (k == all.size()) break;
      }
      if (found) {
        message += ": " + m;
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(40);
        for (size_t len = cs.size() / 2; len >= 1; len /= 2)
          for (size_t at = 0; at + 1 < cs.size() && std::chrono::steady_clock::now() < until;) {
            std::vector<Case> t = cs;
            size_t n = std::min(len, t.size() - 1 - at);
            t.erase(t.begin() + at, t.begin() + at + n);
            if (!run_forked(p, t, CASE_SECONDS, true).empty()) cs = t; else at += len;
          }
      } else {
        message += ", and not every time";
      }
    }
    replay = replay_name(cs);
    write_replay(p, replay, cs, message);
  }
};
}

using namespace pbt;

#ifdef PBT_FUZZ
// libFuzzer entry: the bytes are the choices of the same generator.
static Property* fuzz_property;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* d = getenv("PBT_DATA");
  ucd::load(d ? d : "data");
  std::istringstream is(getenv("PBT_EXCLUDED") ? getenv("PBT_EXCLUDED") : "");
  std::string w;
  while (is >> w) g_excluded.push_back(w);
  fuzz_property = make_property();
  fuzz_property->setup();
  return 0;
}
static Case fuzz_case;
static void fuzz_save(const std::string& m) {
  const char* d = getenv("PBT_REPLAYS");
  char b[64];
  snprintf(b, sizeof b, "/fuzz-%d.case", int(getpid()));
  write_replay(*fuzz_property, std::string(d ? d : ".") + b, std::vector<Case>(1, fuzz_case), m);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static bool once;
  if (!once) {
    once = true;
  }
  ByteSource s(d, n);
  fuzz_case.assign(fuzz_property->fields().size(), Field());
  fuzz_property->gen(s, fuzz_case);
  sanitize(*fuzz_property, fuzz_case);
  Ctx ctx;
  ctx.stats = false;
  std::string m = run_here(*fuzz_property, fuzz_case, ctx);
  if (!m.empty()) {
    fuzz_save(m);
    fprintf(stderr, "PROPERTY FAILED: %s\n", m.c_str());
    abort();
  }
  return 0;
}
#endif

#ifndef PBT_FUZZ
int main(int argc, char** argv) {
#else
// Turns a libFuzzer artifact into a case (crashes leave only the input).
int pbt_main(int argc, char** argv) {
#endif
  Options o;
  std::string decode;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "%s?\n", a.c_str()); exit(3); } return argv[++i]; };
    if (a == "--tier") o.tier = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--replays") o.replays = val();
    else if (a == "--data") o.data = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--shrink") o.shrink = val();
    else if (a == "--decode") decode = val();
    else if (a == "--no-enum") o.no_enum = true;
    else if (a == "--exclude") g_excluded.push_back(val());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (o.workers < 1 || o.workers > 64) o.workers = 8;
  ucd::load(o.data);
  Property* p = make_property();
  if (p->seconds()) CASE_SECONDS = p->seconds();
  address_space = p->memory();
  p->setup();
  Engine e(*p, o);
  if (!decode.empty()) {               // libFuzzer input -> replay file
    std::ifstream in(decode, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    ByteSource src((const uint8_t*)s.data(), s.size());
    Case c(p->fields().size());
    p->gen(src, c);
    sanitize(*p, c);
    write_replay(*p, o.out, std::vector<Case>(1, c), "from a fuzzer input");
    return 0;
  }
  if (!o.replay.empty()) {
    std::vector<Case> cs = read_replay(*p, o.replay);
    std::string m = run_forked(*p, cs, CASE_SECONDS, false);
    if (m.empty()) { printf("passes\n"); return 0; }
    printf("fails: %s\n", m.c_str());
    return 1;
  }
  if (!o.shrink.empty()) {
    std::vector<Case> cs = read_replay(*p, o.shrink);
    std::string m = run_forked(*p, cs, CASE_SECONDS, true);
    if (m.empty() || cs.size() != 1) { printf("passes\n"); return 0; }
    Shrinker s{*p, std::chrono::steady_clock::now() + std::chrono::seconds(60), 0, CASE_SECONDS, m};
    s.go(cs[0]);
    std::string path = e.replay_name(cs);
    write_replay(*p, path, cs, s.msg);
    printf("%s\n%s\n", path.c_str(), s.msg.c_str());
    return 1;
  }
  if (o.out.empty()) o.out = "/dev/null";
  return e.go();
}
