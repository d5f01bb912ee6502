#include "../norm.hpp"
#include "../early/early.hpp"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
extern char** environ;

static const char* const phases[] = { "in the first constructor of the program", "in the constructor of an object of a unit linked before the library",
  "in the constructor of an object of a unit linked after the library", "in main", "in a thread", "in the destructor of a thread-local object", "in a forked child",
  "in an atexit handler", "in a destructor at the end of main", "in the destructor of an object of a unit linked after the library",
  "in the destructor of an object of a unit linked before the library", "in the last destructor of the program" };
static const char* const kinds[] = { "grapheme cluster break", "combining class", "composition", "canonical decomposition", "compatibility decomposition",
  "clusters of UTF-8", "clusters of UTF-32", "codepoints", "bounds", "D", "C", "KD", "KC", "D of UTF-32", "C of UTF-32", "KD of UTF-32", "KC of UTF-32",
  "position", "conversion", "writing" };

struct P : Property {
  const char* id() const { return "I01"; }
  const char* rule() const {
    return "a text and a plan of up to 12 calls (lookups, decompositions, clusters, positions, forms, bounds, conversions), each at one of twelve times of a "
           "program's life, from its first constructor to its last destructor, in a thread, a thread's end and a forked child; a program built with the library "
           "carries the plan out and every result is compared with the model; non-trivial: a call before main or after its end";
  }
  static const int OPS = 20, ARGS = 4;
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "plan", INTS } }; }
  std::string program, in, out;
  void setup() {
    const char* d = getenv("PBT_EXAMPLES");
    if (!d) { fprintf(stderr, "PBT_EXAMPLES is not set\n"); exit(3); }
    program = std::string(d) + "/early";
  }
  void files() {            // of this process
    std::string base = program + "." + std::to_string(getpid());
    in = base + ".in";
    out = base + ".out";
  }
  // every kind of call as the first one ever, at every time, and then another one
  uint64_t enum_count(bool thorough) { return uint64_t(early::PHASES) * OPS * (thorough ? early::PHASES * 2 : 2); }
  const char* enum_what(bool t) { return t ? "every kind of call as the first, at every time, followed by the same at every other time" : "every kind of call as the first, at every time"; }
  void enum_case(uint64_t i, Case& c) {
    static const Text texts[2] = { { 'a', 0x323, 0x301, 0x1F1E6, 0x1F1E7, 0x1F1E8, 0xAC01, 0xFB03, 0x1F468, 0x200D, 0x2764, 0x1D15E, 0x0F77 },
                                   { 0x1E9B, 0x323, 0x1100, 0x1161, 0x11A8, '\r', '\n', 0x0D4E, 'x', 0x3382, 0x2F800, 0x1F3FB } };
    c[0] = texts[i % 2];
    i /= 2;
    int phase = i % early::PHASES, op = i / early::PHASES % OPS, then = i / early::PHASES / OPS;
    static const int a[] = { 0x1F1E6, 0x301, 'e', 0x1EA5, 0x3392 };
    for (int p : { phase, (phase + then) % int(early::PHASES) }) for (int v : { p, op, op < 5 ? a[op] : 5, 0x301 }) c[1].push_back(v);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 12, 1 }));
    for (int i = 0, n = s.range(1, 12); i < n; i++) {
      c[1].push_back(s.below(early::PHASES));
      c[1].push_back(s.below(OPS));
      if (s.chance(1, 4)) { auto& p = s.pick(ucd::pools.pairs); c[1].push_back(p.first.first); c[1].push_back(p.first.second); }
      else { c[1].push_back(gen::scalar(s)); c[1].push_back(gen::scalar(s)); }
    }
  }
  static void put(std::string& o, int v) { o.append((const char*)&v, 4); }
  static Text bytes(const std::string& s) { Text r; for (unsigned char c : s) r.push_back(c); return r; }
  static Text with(int n, const Text& t) { Text r(1, n); r.insert(r.end(), t.begin(), t.end()); return r; }
  // what a call gives; "also" for the recorded finding of form KC
  Text want(int op, int a, int b, const Text& t, const std::string& s, Text& also) {
    Text r;
    int z;
    switch (op) {
    case 0: return Text(1, ucd::gcb(a));
    case 1: return Text(1, ucd::ccc(a));
    case 2: return Text(1, ucd::compose(a, b, &z) ? z : -1);
    case 3: ucd::canonical_full(a, r); return with(int(r.size()), r);
    case 4: ucd::compat_full(a, r); return with(int(r.size()), r);
    case 5: case 6: {
        std::vector<size_t> g = ucd::grapheme_starts(t);
        for (size_t k = 0; k + 1 < g.size(); k++) { r.insert(r.end(), t.begin() + g[k], t.begin() + g[k + 1]); r.push_back(-1); }
        return r;
      }
    case 7: r = t; r.insert(r.end(), t.rbegin(), t.rend()); return r;
    case 8: {
        size_t k = s.empty() ? 0 : a % s.size();
        std::string p(s, k, s.empty() ? 0 : b % (s.size() - k + 1)), q = p;
        for (size_t i = 0; i < p.size() && ucd::is_cont(p[i]); i++) q[i] = '?';
        for (size_t i = 0; i < p.size(); i++) if (i + ucd::seq_length(p[i]) > p.size()) q[i] = '?';
        r = { p == q, p == q };
        for (unsigned char c : q) r.push_back(c);
        return r;
      }
    case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 16: {
        ucd::Form f = ucd::Form((op - 9) % 4);
        Text n = ucd::normalize(t, f), m = f == ucd::FORM_KC ? ucd::normalize_by_grapheme(t, f) : n;
        also = with(int(m.size()), op < 13 ? bytes(ucd::encode(m)) : m);
        return with(int(n.size()), op < 13 ? bytes(ucd::encode(n)) : n);
      }
    case 17: {
        if (s.empty()) return r;
        std::vector<size_t> g = ucd::grapheme_starts(t), own = owner(offsets8(t));
        size_t o = own[a % s.size()], k = 0;
        while (g[k + 1] <= o) k++;
        return Text(t.begin() + g[k], t.begin() + g[k + 1]);
      }
    case 18: return bytes(s);
    default: return bytes(s + "####");
    }
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t), data;
    std::vector<int> plan;
    for (size_t i = 0; i + ARGS <= c[1].size(); i += ARGS) {
      plan.push_back(unsigned(c[1][i]) % early::PHASES);
      plan.push_back(unsigned(c[1][i + 1]) % OPS);
      plan.push_back(c[1][i + 2] & 0x7FFFFFFF);
      plan.push_back(c[1][i + 3] & 0x7FFFFFFF);
      int p = plan[plan.size() - 4];
      x.label(phases[p]);
      if (p < early::MAIN || p > early::CHILD) x.nontrivial();
    }
    put(data, t.size());
    put(data, s.size());
    put(data, plan.size());
    for (int v : t) put(data, v);
    data += s;
    for (int v : plan) put(data, v);
    files();
    auto trouble = [&](const char* what) { perror(what); _exit(3); };
    int fd = open(in.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, data.data(), data.size()) != ssize_t(data.size())) trouble(in.c_str());
    close(fd);
    unlink(out.c_str());
    std::vector<std::string> vars;
    for (char** e = environ; *e; e++) vars.push_back(*e);
    vars.push_back("EARLY_IN=" + in);
    vars.push_back("EARLY_OUT=" + out);
    std::vector<char*> envp;
    for (auto& v : vars) envp.push_back(&v[0]);
    envp.push_back(0);
    char* argv[] = { const_cast<char*>(program.c_str()), 0 };
    pid_t pid;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    for (int k = 0; k < 3; k++) posix_spawn_file_actions_addopen(&fa, k, "/dev/null", k ? O_WRONLY : O_RDONLY, 0);
    int e = posix_spawn(&pid, program.c_str(), &fa, 0, argv, envp.data());
    posix_spawn_file_actions_destroy(&fa);
    if (e) { errno = e; trouble(program.c_str()); }
    int status = 0;
    bool late = false;
    timespec began, t1;
    clock_gettime(CLOCK_MONOTONIC, &began);
    while (waitpid(pid, &status, WNOHANG) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - began.tv_sec > 20) { late = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
      usleep(200);
    }
    if (late) x.fail("the program does not end");
    if (WIFEXITED(status) && WEXITSTATUS(status) == 9) { fprintf(stderr, "the early program could not do its work\n"); _exit(3); }
    if (status != 0) x.fail("the program ends with status %#x", status);
    std::string got;
    fd = open(out.c_str(), O_RDONLY);
    if (fd < 0) trouble(out.c_str());
    char buf[8192];
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) got.append(buf, n);
    close(fd);
    unlink(out.c_str());
    unlink(in.c_str());
    std::vector<int> v(got.size() / 4);
    memcpy(v.data(), got.data(), v.size() * 4);
    size_t calls = 0;
    for (size_t i = 0; i + 2 <= v.size();) {
      size_t k = v[i] * 4, n = v[i + 1];
      if (k + 4 > plan.size() || i + 2 + n > v.size()) { fprintf(stderr, "the early program wrote something else\n"); _exit(3); }
      Text r(v.begin() + i + 2, v.begin() + i + 2 + n), also;
      i += 2 + n;
      calls++;
      Text w = want(plan[k + 1], plan[k + 2], plan[k + 3], t, s, also);
      x.checks++;
      if (r != w && (also.empty() || r != also))
        x.fail("%s of %s, %s (call %zu):\n  got  %s\n  want %s", kinds[plan[k + 1]], plan[k + 1] < 5 ? show({ plan[k + 2], plan[k + 3] }).c_str() : show(t).c_str(),
               phases[plan[k]], k / 4, show(r).c_str(), show(w).c_str());
    }
    if (calls != plan.size() / 4) { fprintf(stderr, "the early program left calls out\n"); _exit(3); }
  }
};
PROPERTY(P)
