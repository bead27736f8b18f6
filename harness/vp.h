// Harness interface. Compiled twice: to bitcode for the symbolic executor (VP_ENGINE) and natively to replay counterexamples.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <cstring>
#include <cmath>
extern "C" {
double vp_sym(const char* name, double lo, double hi);                 // arbitrary value in [lo,hi]
double vp_symi(const char* name, int i, double lo, double hi);
double vp_symij(const char* name, int i, int j, double lo, double hi);
long vp_int(const char* name, long lo, long hi);                       // arbitrary integer (symbolic)
long vp_pick(const char* name, long lo, long hi);                      // arbitrary integer (one path per value)
void vp_assume(bool c);
void vp_assert(bool c, const char* id);
void vp_near(double a, double b, double tol, const char* id);          // |a-b| <= tol, NaN fails
void vp_exit_begin(const char* id, int code);                          // from here on the process must terminate with this status
void vp_exit_end();
double vp_uf1(const char* f, double a);                                // uninterpreted function (engine), real one (native)
double vp_uf2(const char* f, double a, double b);
bool vp_is_engine();
}
#define VP_ABORTS (-1000)      /* terminates by abort/assert */
#define VP_ANYEXIT (-999)      /* terminates in any way */
#ifndef VP_TIER
#define VP_TIER 1
#endif
#define VP_THOROUGH (VP_TIER > 1)
template <class C> inline void vp_nearc(const C& a, const C& b, double tol, const char* id) { vp_near(a.real(), b.real(), tol, id); vp_near(a.imag(), b.imag(), tol, id); }

#ifdef VP_ENGINE
#define VP_CASE(n) extern "C" void vpcase_##n()
#define VP_CASES(n, k) extern "C" { __attribute__((used)) extern const int vpcasen_##n; const int vpcasen_##n = (k); } extern "C" void vpcase_##n(int vp_k)
#define VP_IEEE_CASE(n) extern "C" { __attribute__((used)) extern const int vpcasemode_##n; const int vpcasemode_##n = 1; } extern "C" void vpcase_##n()
#define VP_IEEE_CASES(n, k) extern "C" { __attribute__((used)) extern const int vpcasemode_##n; const int vpcasemode_##n = 1; } VP_CASES(n, k)
#include "support.h"
#else
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
namespace vpn {
  inline std::map<std::string, void (*)()>& c0() { static std::map<std::string, void (*)()> m; return m; }
  inline std::map<std::string, void (*)(int)>& c1() { static std::map<std::string, void (*)(int)> m; return m; }
  inline std::map<std::string, std::string>& in() { static std::map<std::string, std::string> m; return m; }
  struct Reg { Reg(const char* n, void (*f)()) { c0()[n] = f; } Reg(const char* n, void (*f)(int)) { c1()[n] = f; } };
  inline bool& expOn() { static bool b = false; return b; } inline int& expCode() { static int c; return c; } inline std::string& expId() { static std::string s; return s; } inline bool& finished() { static bool b=false; return b; }
  inline void fail(const std::string& m) { std::cout.flush(); fprintf(stderr, "VP-FAIL %s\n", m.c_str()); fflush(stderr); _exit(1); }
  inline std::string get(const std::string& n) { auto it = in().find(n); if (it == in().end()) { fprintf(stderr, "VP-MISSING %s\n", n.c_str()); _exit(76); } return it->second; }
  inline void onexit(int status, void*) { if (finished()) return; if (expOn() && (expCode() == status || expCode() == VP_ANYEXIT)) { _exit(0); } fprintf(stderr, "VP-FAIL process terminated with status %d%s\n", status, expOn() ? (" in " + expId()).c_str() : ""); _exit(1); }
  inline void onabort(int) { if (expOn() && (expCode() == VP_ABORTS || expCode() == VP_ANYEXIT)) _exit(0); static const char m[] = "VP-FAIL abort\n"; (void)!write(2, m, sizeof m - 1); _exit(1); }
}
extern "C" {
inline double vp_sym(const char* n, double, double) { return strtod(vpn::get(n).c_str(), 0); }
inline double vp_symi(const char* n, int i, double, double) { return strtod(vpn::get(std::string(n) + "_" + std::to_string(i)).c_str(), 0); }
inline double vp_symij(const char* n, int i, int j, double, double) { return strtod(vpn::get(std::string(n) + "_" + std::to_string(i) + "_" + std::to_string(j)).c_str(), 0); }
inline long vp_int(const char* n, long, long) { return strtol(vpn::get(n).c_str(), 0, 10); }
inline long vp_pick(const char* n, long, long) { return strtol(vpn::get(n).c_str(), 0, 10); }
inline void vp_assume(bool c) { if (!c) _exit(77); }
inline void vp_assert(bool c, const char* id) { if (!c) vpn::fail(id); }
inline void vp_near(double a, double b, double tol, const char* id) { if (std::isinf(a) && a == b) return; if (!(std::fabs(a - b) <= tol)) { char s[200]; snprintf(s, sizeof s, "%s: %.17g vs %.17g (tolerance %g)", id, a, b, tol); vpn::fail(s); } }
inline void vp_exit_begin(const char* id, int code) { vpn::expOn() = true; vpn::expCode() = code; vpn::expId() = id; }
inline void vp_exit_end() { vpn::fail(vpn::expId() + ": the call returned although the process had to terminate"); }
#ifdef VP_UF
double vp_uf1(const char* f, double a); double vp_uf2(const char* f, double a, double b);
#endif
inline bool vp_is_engine() { return false; }
const char* __asan_default_options() { return "detect_leaks=0:new_delete_type_mismatch=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
}
#define VP_CASE(n) extern "C" void vpcase_##n(); static vpn::Reg vpreg_##n(#n, vpcase_##n); extern "C" void vpcase_##n()
#define VP_CASES(n, k) extern "C" void vpcase_##n(int); static vpn::Reg vpreg_##n(#n, vpcase_##n); extern "C" void vpcase_##n(int vp_k)
#define VP_IEEE_CASE(n) VP_CASE(n)
#define VP_IEEE_CASES(n, k) VP_CASES(n, k)
#include <csignal>
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) { std::istringstream s(l); std::string n, k, v; s >> n >> k >> v; if (!n.empty()) vpn::in()[n] = v; } }
  on_exit(vpn::onexit, nullptr); signal(SIGABRT, vpn::onabort);
  std::string c = argv[1];
  try { if (vpn::c0().count(c)) vpn::c0()[c](); else if (vpn::c1().count(c)) vpn::c1()[c](atoi(argv[2])); else return 2; }
  catch (...) { vpn::fail("uncaught exception"); }
  vpn::finished() = true; std::cout.flush(); _exit(0);
}
#endif
