#include "../whole.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstddef>
#include <locale>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <xmmintrin.h>
#include <fcntl.h>

// The library in a process that is not as usual, and from which nothing but
// memory can be asked.
namespace {
// every octet is in other classes than usual, and of another case
struct Odd : std::ctype<char> {
  static const mask* table() {
    static mask m[256];
    for (int i = 0; i < 256; i++) m[i] = i % 3 == 0 ? space | digit : i % 3 == 1 ? alpha | upper | print : cntrl | punct;
    return m;
  }
  Odd() : std::ctype<char>(table()) {}
  char do_toupper(char c) const { return char(c + 1); }
  char do_tolower(char c) const { return char(c - 1); }
  char do_widen(char c) const { return char(c ^ 1); }
  char do_narrow(char c, char) const { return char(c ^ 1); }
};
struct OddWide : std::ctype<wchar_t> {
  bool do_is(mask, wchar_t c) const { return c & 1; }
  wchar_t do_toupper(wchar_t c) const { return c + 1; }
  wchar_t do_tolower(wchar_t c) const { return c - 1; }
};
struct OddCollate : std::collate<char> {
  int do_compare(const char*, const char*, const char*, const char*) const { return 0; }
};
bool forbid(int fd) {
  // anything but memory, the end, and what is written to the result
  sock_filter f[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mmap, 13, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_munmap, 12, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mremap, 11, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_brk, 10, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_madvise, 9, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mprotect, 8, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_futex, 7, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_exit_group, 6, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_rt_sigprocmask, 5, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_rt_sigreturn, 4, 0),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_write, 0, 2),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args[0])),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)fd, 1, 0),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
  };
  sock_fprog p = { sizeof f / sizeof *f, f };
  return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}
}
extern char** environ;

struct P : Property {
  const char* id() const { return "K02"; }
  const char* rule() const {
    return "a sequence of integers put through everything R01 looks at, and an octet string whose bounds are checked and enforced, in a process of its own "
           "with one of four rounding modes, denormals flushed or not, one of two C locales, a global C++ locale with odd facets, signals blocked, an empty or another environment, no file open, "
           "and no system call allowed but for memory; against the same model, and all that as it was afterwards; non-trivial: several encoded lengths, and another rounding mode or locale";
  }
  int big() { return 3000; }
  std::vector<FieldSpec> fields() const { return { { "ints", ANYINTS }, { "offsets", INTS }, { "octets", OCTETS }, { "process", INTS } }; }
  uint64_t enum_count(bool thorough) { return 0x110000 / 100 / (thorough ? 1 : 4) + 1024; }
  const char* enum_what(bool thorough) { return thorough ? "every codepoint, in texts of 100 of them with marks; every integer next to a power of two, in 32 kinds of process" : "every fourth hundred codepoints, in texts of 100 of them with marks; every integer next to a power of two, in 32 kinds of process"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < 1024) {
      int b = i / 32;
      for (int d = -2; d <= 2; d++) { c[0].push_back(int((1u << b) + unsigned(d))); c[0].push_back(0x301); }
      c[1] = { 3, 17, 40 };
      c[3] = { int(i % 4), int(i / 4 % 2), int(i / 8 % 2), int(i / 16 % 2), 1 };
      return;
    }
    i -= 1024;
    const uint64_t N = 0x110000 / 100 / 4;
    c[3] = { int(i % 4), int(i / 4 % 2), int(i / 8 % 2), int(i / 16 % 2), int(i / 32 % 2) };
    i = i % N * 4 + i / N;
    for (int k = 0; k < 100; k++) {
      c[0].push_back(int(i * 100 + k));
      if (k % 3 == 1) c[0].push_back(0x301);
    }
    for (int k = 0; k < 4; k++) c[1].push_back(int(i * 7919 + k * 37));
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    if (s.chance(1, 3)) for (int& v : c[0]) if (s.chance(1, 8)) v = gen::any_int(s);
    for (int i = 0; i < 6; i++) c[1].push_back(s.range(0, 2000));
    gen::octet_string(s, c[2]);
    c[3] = { s.range(0, 3), s.range(0, 1), s.range(0, 1), s.range(0, 1), s.range(0, 1) };
  }
  static int rounding(int k) { static const int m[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO }; return m[k & 3]; }
  static bool locked;           // whether system calls can be forbidden here
  void setup() {
    fflush(0);
    pid_t p = fork();
    if (!p) _exit(forbid(1) ? 0 : 1);
    int st = 0;
    waitpid(p, &st, 0);
    locked = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  }
  void bounds(Ctx& x, const std::string& o) {
    std::string want = o;
    for (size_t i = 0; i < o.size() && ucd::is_cont(o[i]); i++) want[i] = '?';
    for (size_t i = 0; i < o.size(); i++) if (i + ucd::seq_length(o[i]) > o.size()) want[i] = '?';
    std::string got(o);
    x.checks += 2;
    if (u5e::utf8_bounds<const char*>::check(o.data(), o.data() + o.size()) != (o == want)) x.fail("bounds check of %s", show_octets(o).c_str());
    if (u5e::utf8_bounds<char*>::enforce(&got[0], &got[0] + got.size()) != (o == want) || got != want) x.fail("bounds enforcement of %s", show_octets(o).c_str());
  }
  void inside(const Case& c, Ctx& x, int fd) {
    int fe = rounding(at_or(c[3], 0, 0));
    bool utf8 = at_or(c[3], 1, 0) & 1, odd = at_or(c[3], 2, 0) & 1, flush = at_or(c[3], 3, 0) & 1, bare = at_or(c[3], 4, 0) & 1;
    setlocale(LC_ALL, utf8 ? "C.utf8" : "C");
    if (odd) std::locale::global(std::locale(std::locale(std::locale(std::locale::classic(), new Odd), new OddWide), new OddCollate));
    if (bare) clearenv();
    else { setenv("LANG", "tr_TR.ISO-8859-9", 1); setenv("LC_ALL", "tr_TR.ISO-8859-9", 1); setenv("GLIBCXX_FORCE_NEW", "1", 1); }
    std::string lc = setlocale(LC_ALL, 0);
    std::locale loc;
    sigset_t all, before, after;
    sigfillset(&all);
    sigdelset(&all, SIGVTALRM);           // the watchdog
    sigprocmask(SIG_SETMASK, &all, 0);
    sigprocmask(SIG_SETMASK, 0, &before);
    for (int f = 0; f < 64; f++) if (f != fd) close(f);
    rlimit none = { (rlim_t)fd + 1, (rlim_t)fd + 1 };
    setrlimit(RLIMIT_NOFILE, &none);
    char** env = environ;
    itimerval it = { { 1, 0 }, { 1, 0 } };    // timers are not inherited, the watchdog's handler is
    setitimer(ITIMER_VIRTUAL, &it, 0);
    if (bare && locked && !forbid(fd)) x.fail("the process cannot be closed");
    fesetround(fe);
    if (flush) _mm_setcsr(_mm_getcsr() | 0x8040);
    unsigned csr = _mm_getcsr() & ~0x3Fu;
    errno = 4711;
    whole::text(x, c[0], c[1]);
    bounds(x, octets(c[2]));
    sigprocmask(SIG_SETMASK, 0, &after);
    x.checks++;
    if (fegetround() != fe || (_mm_getcsr() & ~0x3Fu) != csr) x.fail("the rounding mode is another one afterwards");
    if (lc != setlocale(LC_ALL, 0) || !(std::locale() == loc)) x.fail("the locale is another one afterwards");
    if (environ != env || memcmp(&before, &after, 8)) x.fail("the process is not as it was");
  }
  void run(const Case& c, Ctx& x) {
    label_size(x, c[0].size());
    int round = at_or(c[3], 0, 0) & 3;
    if (mixed_lengths(c[0]) && (round || at_or(c[3], 2, 0) & 1)) x.nontrivial();
    if (!locked) x.label("system calls not forbidden");
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    pid_t pid = fork();
    if (!pid) {
      std::string out = "ok";
      uint64_t checks = x.checks;
      try { inside(c, x, p[1]); } catch (Failure& f) { out = "failed: " + f.msg; }
      checks = x.checks - checks;
      fesetround(FE_TONEAREST);
      out = std::to_string(checks) + " " + out.substr(0, 60000);
      (void)!write(p[1], out.data(), out.size());
      _exit(0);
    }
    close(p[1]);
    std::string got;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR);) if (n > 0) got.append(buf, n);
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    x.checks += strtoull(got.c_str(), 0, 10);
    size_t at = got.find(' ');
    std::string what = at == std::string::npos ? "" : got.substr(at + 1);
    static const char* modes[] = { "to nearest", "down", "up", "to zero" };
    if (what != "ok") {
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS) x.fail("a system call was made (other than for memory) with the text %s", show(c[0]).c_str());
      if (WIFEXITED(st) && WEXITSTATUS(st) == 97) x.fail("rounding %s, options %s: it does not end", modes[round], show(c[3]).c_str());
      x.fail("rounding %s, options %s: %s (status %d)", modes[round], show(c[3]).c_str(), what.c_str(), st);
    }
  }
};
bool P::locked;
PROPERTY(P)
