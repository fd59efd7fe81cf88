// Bounded stand-in / replay harness support: executable contracts on the real code.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace h {
inline std::string prop;
inline unsigned long seed = 1;
inline double budget = 4;
inline FILE* out = stdout;   // results; the code under test prints elsewhere
inline char* shm = nullptr;
inline const size_t SHM = 1 << 16;
inline std::string cur;
inline long evals = 0;
inline std::set<size_t> distinct;
inline std::vector<std::string> samples;
inline std::string samplejson;
inline std::map<std::string, long> per;
inline std::chrono::steady_clock::time_point t0;

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void publish() {
  size_t n = std::min(cur.size(), SHM - 1);
  memcpy(shm, cur.data(), n);
  shm[n] = 0;
}

// start of one case: what is exercised
inline void begin(const std::string& kind, const std::string& text = "") {
  cur = kind + ": " + text;
  publish();
  evals++;
  per[kind]++;
}
// append an operation to the current case
inline void op(const std::string& text) {
  cur += "; " + text;
  publish();
}
// end of a non-trivial case
inline void done(bool nontrivial = true) {
  if (nontrivial) {
    if (distinct.insert(std::hash<std::string>()(cur)).second && (samples.size() < 6 || (distinct.size() % 997 == 0 && samples.size() < 12)))
      samples.push_back(cur.substr(0, 400));
  }
}
[[noreturn]] inline void fail(const std::string& msg) {
  fprintf(out, "FAIL %s\nMSG %s\nCASE %s\n", prop.c_str(), msg.c_str(), cur.c_str());
  fflush(out);
  _exit(1);
}
inline void check(bool c, const std::string& msg) {
  if (!c) fail(msg);
}
inline bool close(double a, double b, double tol = 1e-6) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
inline void near(double a, double b, const std::string& msg, double tol = 1e-6) {
  if (!close(a, b, tol)) {
    char buf[200];
    snprintf(buf, 200, " (got %.12g, expected %.12g)", a, b);
    fail(msg + buf);
  }
}
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline std::mt19937 rng;
inline int ri(int lo, int hi) { return lo + (int)(rng() % (unsigned)(hi - lo + 1)); }
inline double rd(double lo, double hi) { return lo + (hi - lo) * (rng() / 4294967296.0); }
template <class T> const T& pick(const std::vector<T>& v) { return v[rng() % v.size()]; }
template <class T> std::string str(const T& x) { std::ostringstream o; o.precision(12); o << x; return o.str(); }
template <class T> std::string strv(const std::vector<T>& v) {
  std::string s = "[";
  for (auto& x : v) s += str(x) + " ";
  return s + "]";
}

using Case = std::function<void()>;
// run the generators of one property round-robin until the budget is used
inline int run(int argc, char** argv, const std::map<std::string, std::vector<Case>>& props) {
  prop = argv[1];
  seed = strtoul(argv[2], nullptr, 10);
  budget = atof(argv[3]);
  int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, SHM)) return 3;
  shm = (char*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  out = fdopen(dup(1), "w");
  if (!out || !freopen("/dev/null", "w", stdout)) return 3;
  t0 = std::chrono::steady_clock::now();
  auto it = props.find(prop);
  if (it == props.end()) { fprintf(out, "NOPROP\n"); return 3; }
  long round = 0;
  // every generator runs at least 'minr' rounds so that coverage does not depend on machine speed alone
  while (elapsed() < budget) {
    for (size_t i = 0; i < it->second.size(); i++) {
      rng.seed(seed * 1000003UL + round * 131 + i);
      it->second[i]();
    }
    round++;
  }
  fprintf(out, "STATS {\"evaluations\": %ld, \"distinct_nontrivial\": %zu, \"rounds\": %ld, \"per_kind\": {", evals, distinct.size(), round);
  bool first = true;
  for (auto& [k, v] : per) { fprintf(out, "%s\"%s\": %ld", first ? "" : ", ", esc(k).c_str(), v); first = false; }
  fprintf(out, "}, \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(out, "%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
  fprintf(out, "]}\n");
  fflush(out);
  _exit(0);
}
}  // namespace h
