#include "../norm.hpp"
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <time.h>
extern char** environ;

struct P : Property {
  const char* id() const { return "X02"; }
  const char* rule() const {
    return "a list of command-line arguments, well-formed UTF-8 without NUL; every documented example that takes arguments is "
           "compiled as it stands and run with them, the others as they are; the printed codepoints and brackets are compared line by "
           "line; non-trivial: an argument with two or more clusters, or changed by a form";
  }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "cuts", INTS } }; }
  std::string dir;
  void setup() {
    const char* d = getenv("PBT_EXAMPLES");
    if (!d) { fprintf(stderr, "PBT_EXAMPLES is not set\n"); exit(3); }
    dir = d;
    signal(SIGPIPE, SIG_IGN);
  }
  std::vector<int> reps() { std::vector<int> r = gen::gcb_representatives(); for (int c : { 0xC4, 0xFB03, 0x323, 0x1D15E }) r.push_back(c); return r; }
  static const int AT_ONCE = 400;
  uint64_t batches() { return (gen::scalars_count() + AT_ONCE - 1) / AT_ONCE; }
  uint64_t enum_count(bool thorough) { return batches() + gen::ClassWalk(reps(), thorough ? 3 : 2).total; }
  const char* enum_what(bool) { return "every scalar value between a mark and another, as one of 400 arguments; every argument of up to 2 (thorough: 3) codepoints over the break classes and four composites"; }
  void enum_case(uint64_t i, Case& c) {
    if (i >= batches()) { gen::ClassWalk(reps(), 3).make(i - batches(), c[0]); return; }
    for (uint64_t k = i * AT_ONCE; k < (i + 1) * AT_ONCE && k < gen::scalars_count(); k++) {
      static const int around[] = { 0x323, 0x1100, 'A', 0x1F1E6 }, after[] = { 0x301, 0x11A8, 0x338, 0x1F3FB };
      c[0].push_back(around[k % 4]);
      c[0].push_back(gen::nth_scalar(k));
      c[0].push_back(after[k / 4 % 4]);
      c[1].push_back(int(c[0].size()));
    }
    c[1].pop_back();     // the end is always a cut
  }
  int big() { return 30000; }       // the system allows 128 KiB for an argument
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 1, 8, 3 }));
    for (int i = 0, n = s.range(0, 6); i < n; i++) c[1].push_back(s.below(1 << 16));
  }
  struct Output { std::string out; int status; bool late; };
  Output spawn(const std::string& name, const std::vector<std::string>& args) {
    Output r;
    r.late = false;
    int p[2];
    if (pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(3); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    std::string path = dir + "/" + name;
    std::vector<char*> argv;
    argv.push_back(const_cast<char*>(path.c_str()));
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(0);
    pid_t pid;
    int e = posix_spawn(&pid, path.c_str(), &fa, 0, argv.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    if (e) { fprintf(stderr, "cannot run %s: %s\n", path.c_str(), strerror(e)); _exit(3); }
    time_t t0 = time(0);
    for (;;) {
      pollfd q = { p[0], POLLIN, 0 };
      int k = poll(&q, 1, 1000);
      if (k > 0) {
        char buf[8192];
        ssize_t n = read(p[0], buf, sizeof buf);
        if (n <= 0) break;
        r.out.append(buf, n);
      }
      if (time(0) - t0 > 20 || r.out.size() > (64u << 20)) { r.late = true; kill(pid, SIGKILL); break; }
    }
    close(p[0]);
    waitpid(pid, &r.status, 0);
    return r;
  }
  // lines of tokens: codepoints, [ and ] as negative numbers, anything else -9
  static std::vector<Text> parse(const std::string& s) {
    std::vector<Text> r(1);
    for (size_t i = 0; i < s.size();) {
      if (s[i] == '\n') { r.push_back(Text()); i++; }
      else if (s[i] == ' ') i++;
      else if (s[i] == '[') { r.back().push_back(-1); i++; }
      else if (s[i] == ']') { r.back().push_back(-2); i++; }
      else if (s[i] == 'U' && s[i+1] == '+' && isxdigit((unsigned char)s[i+2])) {
        char* e;
        r.back().push_back(int(strtoul(s.c_str() + i + 2, &e, 16)));
        i = e - s.c_str();
      } else { r.back().push_back(-9); i++; }
    }
    return r;
  }
  void program(Ctx& x, const char* name, const std::vector<Text>& args, const std::vector<std::string>& octets, const std::vector<Text>& want, bool newline = true) {
    Output o = spawn(name, octets);
    x.checks++;
    std::string all;
    for (auto& a : args) all += show(a) + " ";
    if (o.late) x.fail("%s does not end, for %s", name, all.c_str());
    if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) != 0) x.fail("%s: status %#x, for %s", name, o.status, all.c_str());
    std::vector<Text> got = parse(o.out);
    if (newline) {
      if (!got.back().empty()) x.fail("%s: the last line does not end, for %s", name, all.c_str());
      got.pop_back();
    }
    if (got.size() != want.size()) x.fail("%s: %zu lines for %zu arguments, for %s", name, got.size(), want.size(), all.c_str());
    for (size_t i = 0; i < got.size(); i++)
      if (got[i] != want[i]) x.fail("%s, argument %s:\n  got  %s\n  want %s", name, show(i < args.size() ? args[i] : Text()).c_str(), show(got[i]).c_str(), show(want[i]).c_str());
  }
  void run(const Case& c, Ctx& x) {
    Text t = c[0];
    for (int& v : t) if (v == 0) v = 'n';
    std::vector<size_t> at;
    for (int v : c[1]) at.push_back(v % (t.size() + 1));
    at.push_back(t.size());
    std::sort(at.begin(), at.end());
    std::vector<Text> args, clusters;
    std::vector<Text> form[4];
    std::vector<std::string> octets;
    size_t from = 0;
    for (size_t e : at) {
      Text a(t.begin() + from, t.begin() + e), cl;
      from = e;
      args.push_back(a);
      octets.push_back(ucd::encode(a));
      std::vector<size_t> g = ucd::grapheme_starts(a);
      for (size_t k = 0; !a.empty() && k + 1 < g.size(); k++) {
        cl.push_back(-1);
        cl.insert(cl.end(), a.begin() + g[k], a.begin() + g[k+1]);
        cl.push_back(-2);
      }
      if (g.size() > 2) x.nontrivial();
      clusters.push_back(cl);
      for (int f = 0; f < 4; f++) {
        Text w = ucd::normalize(a, ucd::Form(f));
        if (f == ucd::FORM_KC && x.excluded("kc-across-graphemes")) w = ucd::normalize_by_grapheme(a, ucd::FORM_KC);
        if (w != a) x.nontrivial();
        form[f].push_back(w);
      }
    }
    label_size(x, t.size());
    x.label(args.size() == 1 ? "one argument" : "several arguments");
    program(x, "simple_iteration", args, octets, args);
    program(x, "grapheme_iteration", args, octets, clusters);
    program(x, "normalization_form_d", args, octets, form[0]);
    program(x, "normalization_form_c", args, octets, form[1]);
    program(x, "normalization_form_kd", args, octets, form[2]);
    program(x, "normalization_form_kc", args, octets, form[3]);
    {
      Output o = spawn("smallest_code", octets);
      x.checks++;
      int want = args[0].empty() ? 0 : args[0][0] & 0xFF;
      if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) != want) x.fail("smallest_code ends with status %#x, not %d, for %s", o.status, want, show(args[0]).c_str());
    }
    if (t.size() < 2) { // the programs that take no arguments
      static const Text fixed = { 0xC4, 0xFB03, 'n' };
      program(x, "normalization_form_d_utf32", args, octets, { ucd::normalize(fixed, ucd::FORM_D) }, false);
      program(x, "normalization_form_c_utf32", args, octets, { ucd::normalize(fixed, ucd::FORM_C) }, false);
      program(x, "normalization_form_kd_utf32", args, octets, { ucd::normalize(fixed, ucd::FORM_KD) }, false);
      program(x, "normalization_form_kc_utf32", args, octets, { ucd::normalize(fixed, ucd::FORM_KC) }, false);
      Output o = spawn("truncate_on_codepoint", octets);
      if (o.out != "Ola\n") x.fail("truncate_on_codepoint prints %s", show_octets(o.out).c_str());
      o = spawn("truncate_on_grapheme", octets);
      if (o.out != "Ol\n") x.fail("truncate_on_grapheme prints %s", show_octets(o.out).c_str());
      o = spawn("simple_iteration", {});
      if (o.out != "" || o.status) x.fail("simple_iteration without arguments prints %s", show_octets(o.out).c_str());
      x.checks += 3;
    }
  }
};
PROPERTY(P)
