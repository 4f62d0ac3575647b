// Common part of the replay harnesses: they run the real code and evaluate the
// executable form of the contracts.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "hnco/random.hh"
#include "hnco/bit-vector.hh"

namespace vh {
using bv = hnco::bit_vector_t;

inline std::string cur_fn, cur_in;
inline long cases = 0;
inline std::set<std::size_t> distinct;
inline std::vector<std::string> samples;
inline std::map<std::string, long> per_fn;
inline bool thorough = false;
inline unsigned seed = 1;
inline std::mt19937 rng;

template <class T> void put(std::ostream& o, const T& v) { o << v; }
inline void put(std::ostream& o, unsigned char v) { o << int(v); }
inline void put(std::ostream& o, bool v) { o << (v ? 1 : 0); }
template <class A, class B> void put(std::ostream& o, const std::pair<A, B>& p);
template <class T> void put(std::ostream& o, const std::vector<T>& v) {
  o << "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; put(o, static_cast<T>(v[i])); }
  o << "]";
}
inline void put(std::ostream& o, const bv& v) { o << "<"; for (auto b : v) o << int(b); o << ">"; }
template <class A, class B> void put(std::ostream& o, const std::pair<A, B>& p) { o << "("; put(o, p.first); o << ","; put(o, p.second); o << ")"; }

template <class... A> std::string str(const A&... a) {
  std::ostringstream o; o.precision(17);
  ((put(o, a), o << " "), ...);
  return o.str();
}

[[noreturn]] inline void fail_now(const std::string& what) {
  // async-signal use is fine here: we are about to exit
  std::string m = "FAIL function=" + cur_fn + " | input: " + cur_in + " | " + what + "\n";
  ssize_t r = write(1, m.data(), m.size()); (void)r;
  _exit(1);
}
inline void on_signal(int s) {
  fail_now(s == SIGABRT ? "aborted (assertion, terminate or bounds check)" : s == SIGALRM ? "does not terminate" :
           s == SIGSEGV ? "segmentation fault" : "fatal signal");
}
inline void init(int argc, char** argv, unsigned limit_s = 150) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--thorough")) thorough = true;
    if (!strcmp(argv[i], "--seed") && i + 1 < argc) seed = atoi(argv[i + 1]);
  }
  rng.seed(seed);
  hnco::random::Generator::set_seed(seed);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) std::signal(s, on_signal);
  alarm(limit_s);
}
// Announce a case: the function under check and its input, written out.
template <class... A> void at(const char* fn, const A&... a) {
  cur_fn = fn; cur_in = str(a...);
  if ((cases++ & 63) == 0) alarm(150);
  long& k = per_fn[cur_fn];
  k++;
  distinct.insert(std::hash<std::string>()(cur_fn + "|" + cur_in));
  if (k == 3 || k == 50) if (samples.size() < 40) samples.push_back(cur_fn + ": " + cur_in.substr(0, 300));
}
inline void ok(bool b, const std::string& what) { if (!b) fail_now(what); }
template <class A, class B> void eq(const A& got, const B& want, const char* what) {
  if (!(got == want)) fail_now(std::string(what) + ": got " + str(got) + " expected " + str(want));
}
inline int done() {
  printf("HARNESS cases=%ld distinct=%zu functions=%zu\n", cases, distinct.size(), per_fn.size());
  for (auto& p : per_fn) printf("FN %s %ld\n", p.first.c_str(), p.second);
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  return 0;
}

// ---- input generators
inline int rnd(int lo, int hi) { return std::uniform_int_distribution<int>(lo, hi)(rng); }
inline double rndd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
inline bv rbv(int n) { bv x(n); for (auto& b : x) b = rnd(0, 1); return x; }
inline bv from_int(int n, unsigned long u) { bv x(n); for (int i = 0; i < n; i++) x[i] = (i < 64) ? (u >> i) & 1 : 0; return x; }
// every vector of size n
template <class F> void all_bv(int n, F f) { for (unsigned long u = 0; u < (1ul << n); u++) f(from_int(n, u)); }
inline bool valid(const bv& x) { for (auto b : x) if (b != 0 && b != 1) return false; return true; }
inline int wt(const bv& x) { int w = 0; for (auto b : x) w += b != 0; return w; }
inline int hd(const bv& x, const bv& y) { int d = 0; for (size_t i = 0; i < x.size(); i++) d += x[i] != y[i]; return d; }
}
