// A program that uses the library at every time of its life: what it is to do
// comes in the file EARLY_IN, what came out goes to EARLY_OUT.
#ifndef VERIF_EARLY_HPP
#define VERIF_EARLY_HPP
namespace early {
enum Phase { CTOR_FIRST, CTOR_UNIT_FIRST, CTOR_UNIT_LAST, MAIN, THREAD, THREAD_LOCAL_DTOR, CHILD, AT_EXIT, MAIN_LOCAL_DTOR, DTOR_UNIT_LAST, DTOR_UNIT_FIRST, DTOR_LAST, PHASES };
void now(int phase);        // do what is planned for this time
void finish();
struct Unit {               // an object with static storage duration
  int in, out;
  bool last;
  Unit(int i, int o, bool l = false) : in(i), out(o), last(l) { now(in); }
  ~Unit() { now(out); if (last) finish(); }
};
}
#endif
