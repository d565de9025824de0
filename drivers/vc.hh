// Runtime counterpart of the contracts: replays verifier models and, where a proof is out of reach,
// evaluates the same postconditions on generated inputs (bounded stand-in).
#ifndef VC_HH
#define VC_HH
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include "gear/GEAR.h"

namespace vc {
static char trace[1 << 16];
static size_t tlen = 0;
static int outfd = 1;
static const char* where = "?";
static std::set<std::string> seen;
static long evals = 0, checks = 0, cases = 0;
static std::set<uint64_t> distinct;
static std::vector<std::string> samples;
static int nfail = 0;

inline void emit(const char* fmt, ...) {
  static char b[1 << 17];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 3) n = sizeof b - 3;
  for (int i = 0; i < n; ++i) if (b[i] == '\n') b[i] = ' ';
  b[n] = '\n';
  if (write(outfd, b, n + 1)) {}
}
inline void rec(const char* fmt, ...) {
  if (tlen > sizeof trace - 400) return;
  va_list ap; va_start(ap, fmt); int n = vsnprintf(trace + tlen, sizeof trace - tlen - 1, fmt, ap); va_end(ap);
  if (n > 0) tlen += n;
  if (tlen >= sizeof trace) tlen = sizeof trace - 1;
}
inline void death() { emit("FAIL crash:%s :: input: %s", where, trace); }
inline void onsig(int s) { emit("FAIL %s:%s :: signal %d, input: %s", s == SIGALRM ? "hang" : "crash", where, s, trace); _exit(3); }

struct Stop {};
inline void fail(const std::string& key, const std::string& msg) {
  ++nfail;
  if (!seen.insert(key).second) throw Stop();
  emit("FAIL %s :: %s :: input: %s", key.c_str(), msg.c_str(), trace);
  if (seen.size() > 20) _exit(0);
  throw Stop();
}
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
#define CHECK(c, key, ...) do { ++vc::checks; if (!(c)) vc::fail(key, std::string(#c) + "  " + vc::fmt(" " __VA_ARGS__)); } while (0)
// record an operation of the history
#define OP(...) vc::rec(__VA_ARGS__)

inline bool near(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  double m = std::max(1., std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * m;
}

struct Gen {
  uint64_t s;
  std::vector<double> hints;                                    // literals of the code under contract
  std::vector<std::map<std::string, double> > models;          // counterexample models of failed obligations
  const std::map<std::string, double>* model = 0;
  uint64_t raw() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
  double u() { return (raw() >> 11) * (1. / 9007199254740992.); }
  bool chance(double p) { return u() < p; }
  long bare(long lo, long hi) { return lo + (long)(raw() % (uint64_t)(hi - lo + 1)); }
  const double* fromModel(const std::string& n) {
    if (!model) return 0;
    std::map<std::string, double>::const_iterator it = model->find(n);
    return it == model->end() || !chance(0.9) ? 0 : &it->second;
  }
  long i(const char* n, long lo, long hi) {
    long v;
    const double* m = fromModel(n);
    if (m && *m >= lo && *m <= hi) v = (long)*m;
    else if (!hints.empty() && chance(0.15)) {
      v = bare(lo, hi);
      for (int k = 0; k < 6; ++k) {
        double h = hints[raw() % hints.size()] + (double)((long)(raw() % 3) - 1);
        if (h >= lo && h <= hi && h == std::floor(h)) { v = (long)h; break; }
      }
    } else if (chance(0.1)) v = lo;
    else if (chance(0.1)) v = hi;
    else if (hi - lo > 64 && chance(0.6)) v = bare(lo, lo + 12);
    else v = bare(lo, hi);
    rec("%s=%ld ", n, v);
    return v;
  }
  double d(const char* n, double lo, double hi) {
    double v;
    const double* m = fromModel(n);
    if (m && *m >= lo && *m <= hi) v = *m;
    else if (!hints.empty() && chance(0.08)) {
      v = lo + u() * (hi - lo);
      for (int k = 0; k < 6; ++k) {
        double h = hints[raw() % hints.size()]; if (chance(0.3)) h = -h; if (chance(0.3)) h += (u() - .5) * 1e-3;
        if (h >= lo && h <= hi) { v = h; break; }
      }
    } else if (chance(0.25)) { v = std::floor(2. * (lo + u() * (hi - lo))) / 2.; if (v < lo || v > hi) v = lo + u() * (hi - lo); }
    else if (chance(0.03)) v = lo;
    else if (chance(0.03)) v = hi;
    else v = lo + u() * (hi - lo);
    rec("%s=%.17g ", n, v);
    return v;
  }
  bool b(const char* n) { return i(n, 0, 1) != 0; }
  std::string word(const char* n, int maxlen = 8) {
    static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-+:/";
    std::string r; int l = 1 + raw() % maxlen;
    for (int k = 0; k < l; ++k) r += a[raw() % (sizeof a - 1)];
    rec("%s='%s' ", n, r.c_str());
    return r;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[raw() % v.size()]; }
};

// outcome of a call: 0 returned, otherwise the exception family
enum Out { OK = 0, GEAR_EXC, PARSE_EXC, UNKNOWN_PARAM, NOT_IMPL, OUT_OF_RANGE, OTHER_STD, OTHER };
inline const char* oname(Out o) { static const char* n[] = {"returned", "gear::Exception", "ParseException", "UnknownParameterException", "NotImplementedException", "std::out_of_range", "std::exception", "other"}; return n[o]; }
inline Out outcome(const std::function<void()>& f) {
  try { f(); return OK; }
  catch (Stop&) { throw; }
  catch (gear::ParseException&) { return PARSE_EXC; }
  catch (gear::UnknownParameterException&) { return UNKNOWN_PARAM; }
  catch (gear::NotImplementedException&) { return NOT_IMPL; }
  catch (gear::Exception&) { return GEAR_EXC; }
  catch (std::out_of_range&) { return OUT_OF_RANGE; }
  catch (std::exception&) { return OTHER_STD; }
  catch (...) { return OTHER; }
}
inline bool isGear(Out o) { return o >= GEAR_EXC && o <= NOT_IMPL; }
}

using namespace vc;
struct Part { const char* name; void (*fn)(Gen&); };
extern const Part PARTS[];
extern const int NPARTS;
#define PARTS_TABLE(...) const Part PARTS[] = {__VA_ARGS__}; const int NPARTS = sizeof PARTS / sizeof PARTS[0];

int main(int argc, char** argv) {
  uint64_t seed = 1; double budget = 5; const char* hf = 0; const char* mf = 0; long maxcases = 1L << 60; long only = -1;
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string a = argv[k];
    if (a == "--seed") seed = strtoull(argv[k + 1], 0, 10);
    if (a == "--time") budget = atof(argv[k + 1]);
    if (a == "--hints") hf = argv[k + 1];
    if (a == "--models") mf = argv[k + 1];
    if (a == "--cases") maxcases = atol(argv[k + 1]);
    if (a == "--case") only = atol(argv[k + 1]);
  }
  outfd = dup(1);                                   // the library prints to stdout: keep our channel apart
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  std::cout.setstate(std::ios_base::failbit);
  std::cerr.setstate(std::ios_base::failbit);
  __sanitizer_set_death_callback(death);
  signal(SIGABRT, onsig); signal(SIGALRM, onsig); signal(SIGFPE, onsig);
  Gen g; 
  if (hf) { std::ifstream f(hf); double v; while (f >> v) g.hints.push_back(v); }
  if (mf) {
    std::ifstream f(mf); std::string l;
    while (std::getline(f, l)) { std::map<std::string, double> m; std::istringstream is(l); std::string n; double v; while (is >> n >> v) m[n] = v; if (!m.empty()) g.models.push_back(m); }
  }
  struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (long c = only >= 0 ? only : 0; c < maxcases; ++c) {
    clock_gettime(CLOCK_MONOTONIC, &t);
    if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget) break;
    for (int p = 0; p < NPARTS; ++p) {
      g.s = (seed * 1000003ULL + c) * 6364136223846793005ULL + 1442695040888963407ULL + p * 977;
      for (int k = 0; k < 3; ++k) g.raw();
      g.model = g.models.empty() || c % 2 ? 0 : &g.models[(c / 2) % g.models.size()];
      tlen = 0; trace[0] = 0; where = PARTS[p].name;
      rec("[%s seed=%llu case=%ld] ", PARTS[p].name, (unsigned long long)seed, c);
      size_t head = tlen;
      struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 10; setitimer(ITIMER_REAL, &it, 0);
      try { PARTS[p].fn(g); }
      catch (Stop&) {}
      catch (std::exception& e) { try { fail(std::string("exception:") + where, std::string("unexpected exception ") + e.what()); } catch (Stop&) {} }
      ++cases;
      uint64_t h = 1469598103934665603ULL; for (size_t k = head; k < tlen; ++k) h = (h ^ (unsigned char)trace[k]) * 1099511628211ULL;
      if (distinct.size() < 2000000) distinct.insert(h);
      if (samples.size() < 3 && c > 1) samples.push_back(std::string(trace).substr(0, 400));
    }
    if (only >= 0) break;
  }
  struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0);
  for (size_t k = 0; k < samples.size(); ++k) emit("SAMPLE %s", samples[k].c_str());
  emit("STAT cases %ld distinct %ld checks %ld fails %d", cases, (long)distinct.size(), checks, nfail);
  _exit(0);
}
#endif
