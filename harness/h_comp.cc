// C03 C04 C05 C06: component models
#include "h.hh"
#include <memory>
#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"
#include "util_math.hh"

using namespace h;

static std::string qs(const std::string& s) { return "\"" + s + "\""; }
static std::string qs(double d) { return str(d); }

// One description per component model: how to make one, give it hyperparameters, draw observations and look at its state.
template <class D, class T>
struct M {
  std::string name;
  std::function<D*()> make;
  std::function<void(D&, const std::vector<double>&)> hyp;
  std::function<std::vector<double>(const D&)> gethyp;
  std::function<std::vector<double>()> rhyp;
  std::function<T()> obs;
  std::vector<T> probes;
  std::function<std::vector<double>(const D&)> stats;
  bool conj = true;
  bool exact_weights = true;   // fractional weights accepted
};
using V = std::vector<double>;

static M<BetaBernoulli, bool> bb() {
  return {"BetaBernoulli", [] { return new BetaBernoulli; }, [](BetaBernoulli& d, const V& v) { d.alpha = v[0]; d.beta = v[1]; },
    [](const BetaBernoulli& d) { return V{d.alpha, d.beta}; }, [] { return V{pick<double>({1, 0.3, 2.5, 1e-3}), pick<double>({1, 0.7, 4})}; },
    [] { return (bool)ri(0, 1); }, {false, true}, [](const BetaBernoulli& d) { return V{d.N, d.s}; }};
}
static int dck = 3;
static M<DirichletCategorical, int> dc() {
  dck = ri(1, 6);
  std::vector<int> pr;
  for (int i = 0; i < dck; i++) pr.push_back(i);
  return {"DirichletCategorical", [] { return new DirichletCategorical(dck); }, [](DirichletCategorical& d, const V& v) { d.alpha = v[0]; },
    [](const DirichletCategorical& d) { return V{d.alpha}; }, [] { return V{pick<double>({1, 0.3, 2.5, 10, 1e-2})}; },
    [] { return ri(0, dck - 1); }, pr, [](const DirichletCategorical& d) { V v{d.N}; for (auto c : d.counts) v.push_back(c); return v; }};
}
static M<Normal, double> no() {
  return {"Normal", [] { return new Normal; }, [](Normal& d, const V& v) { d.r = v[0]; d.v = v[1]; d.m = v[2]; d.s = v[3]; },
    [](const Normal& d) { return V{d.r, d.v, d.m, d.s}; }, [] { return V{pick<double>({1, 0.1, 10, 2}), pick<double>({0.5, 1, 5, 3}), pick<double>({-1, 0, 1.5}), pick<double>({0.5, 1, 2})}; },
    [] { return pick<double>({rd(-3, 3), rd(-50, 50), (double)ri(-2, 2)}); }, {-4, -1, 0, 0.5, 3, 20}, [](const Normal& d) { return V{d.N, d.N ? d.mean : 0, d.N ? d.var : 0}; }};
}
static M<ZeroMeanNormal, double> zm() {
  return {"ZeroMeanNormal", [] { return new ZeroMeanNormal; }, [](ZeroMeanNormal& d, const V& v) { d.alpha = v[0]; d.beta = v[1]; },
    [](const ZeroMeanNormal& d) { return V{d.alpha, d.beta}; }, [] { return V{pick<double>({1, 0.1, 10, 2}), pick<double>({0.5, 1, 5, 3})}; },
    [] { return pick<double>({rd(-3, 3), rd(-50, 50), (double)ri(-2, 2)}); }, {-4, -1, 0, 0.5, 3, 20}, [](const ZeroMeanNormal& d) { return V{d.N, d.N ? d.var : 0}; }};
}
static V bgstats(const Bigram& d) {
  V v{d.N};
  for (auto& t : d.transition_dists) { v.push_back(t.N); for (double c : t.counts) v.push_back(c); }
  return v;
}
static V bghyp(const Bigram& d) { V v{d.alpha}; for (auto& t : d.transition_dists) v.push_back(t.alpha); return v; }
static char bghi = 'c';
static size_t bgmax = 0;
static M<Bigram, std::string> bg() {
  bghi = 'a' + ri(0, 4);
  bgmax = pick<size_t>({0, 80, 5});
  return {"Bigram", [] { return new Bigram(bgmax, 'a', bghi); }, [](Bigram& d, const V& v) { d.set_alpha(v[0]); }, bghyp,
    [] { return V{pick<double>({1, 0.3, 10, 1e-2})}; },
    [] { std::string s; int n = ri(0, 5); for (int i = 0; i < n; i++) s += 'a' + ri(0, bghi - 'a'); return s; }, {"", "a", "aa", "aaa", std::string(1, bghi), std::string("a") + bghi + "a"}, bgstats};
}
static M<StringNat, std::string> sn() {
  return {"StringNat", [] { return new StringNat(); }, [](StringNat& d, const V& v) { d.set_alpha(v[0]); }, [](const StringNat& d) { return bghyp(d); },
    [] { return V{pick<double>({1, 0.3, 10})}; }, [] { std::string s; int n = ri(0, 6); for (int i = 0; i < n; i++) s += '0' + ri(0, 9); return s; },
    {"", "0", "00", "9", "123", "90210"}, [](const StringNat& d) { return bgstats(d); }};
}
static std::vector<std::string> scv;
static M<StringCat, std::string> sc() {
  static const std::vector<std::vector<std::string>> all{{"a"}, {"yes", "no"}, {"x", "", "xx", "hello world"}, {"b", "a", "c", "d", "e"}};
  scv = pick(all);
  return {"StringCat", [] { return new StringCat(scv); }, [](StringCat& d, const V& v) { d.dc.alpha = v[0]; }, [](const StringCat& d) { return V{d.dc.alpha}; },
    [] { return V{pick<double>({1, 0.3, 10})}; }, [] { return pick(scv); }, scv, [](const StringCat& d) { V v{d.N, d.dc.N}; for (auto c : d.dc.counts) v.push_back(c); return v; }};
}
static M<Skellam, int> sk() {
  return {"Skellam", [] { return new Skellam; }, [](Skellam& d, const V& v) { d.mean1 = v[0]; d.stddev1 = v[1]; d.mean2 = v[2]; d.stddev2 = v[3]; d.mu1 = v[4]; d.mu2 = v[5]; },
    [](const Skellam& d) { return V{d.mean1, d.stddev1, d.mean2, d.stddev2, d.mu1, d.mu2}; }, [] { return V{pick<double>({0, 1}), 1, pick<double>({0, -1}), 1, pick<double>({0.5, 1, 4}), pick<double>({1, 2.5})}; },
    [] { return ri(-6, 6); }, {-5, -1, 0, 1, 4}, [](const Skellam& d) { V v{d.N}; for (auto& [k, w] : d.seen) if (w != 0) { v.push_back(k); v.push_back(w); } return v; }, false};
}
template <class A, class S>
static M<A, std::string> ad(const std::string& n, std::function<A*()> mk, std::function<std::string()> ob, std::vector<std::string> pr, std::function<V(const A&)> st, std::function<V(const A&)> gh, std::function<void(A&, const V&)> hy, std::function<V()> rh, bool conj) {
  return {n, mk, hy, gh, rh, ob, pr, st, conj};
}
using ADC = DistributionAdapter<int>;
using ADN = DistributionAdapter<double>;
static M<ADC, std::string> adc() {
  dck = ri(2, 5);
  return ad<ADC, int>("Adapter<int>(categorical)", [] { return new ADC(new DirichletCategorical(dck)); }, [] { return std::to_string(ri(0, dck - 1)); }, {"0", "1"},
    [](const ADC& a) { auto& d = *(DirichletCategorical*)a.d; V v{a.N, d.N}; for (auto c : d.counts) v.push_back(c); return v; },
    [](const ADC& a) { return V{((DirichletCategorical*)a.d)->alpha}; }, [](ADC& a, const V& v) { ((DirichletCategorical*)a.d)->alpha = v[0]; }, [] { return V{pick<double>({1, 0.3, 10})}; }, true);
}
static M<ADN, std::string> adn() {
  return ad<ADN, double>("Adapter<double>(normal)", [] { return new ADN(new Normal); }, [] { return pick<std::string>({"1", "-2.5", "0", "3.25", "1e2"}); }, {"0", "1.5", "-7"},
    [](const ADN& a) { auto& d = *(Normal*)a.d; return V{a.N, d.N, d.N ? d.mean : 0, d.N ? d.var : 0}; },
    [](const ADN& a) { auto& d = *(Normal*)a.d; return V{d.r, d.v, d.m, d.s}; }, [](ADN& a, const V& v) { auto& d = *(Normal*)a.d; d.r = v[0]; d.v = v[1]; d.m = v[2]; d.s = v[3]; }, [] { return V{1, 2, 0.5, pick<double>({1, 2})}; }, true);
}

template <class T> using WL = std::vector<std::pair<T, double>>;
static void same(const V& a, const V& b, const std::string& msg, double tol = 1e-7) {
  check(a.size() == b.size(), msg + " (number of statistics)");
  for (size_t i = 0; i < a.size(); i++) near(a[i], b[i], msg + " (statistic " + str(i) + ")", tol);
}

template <class D, class T>
static std::unique_ptr<D> build(const M<D, T>& m, const V& hy, const WL<T>& data) {
  std::unique_ptr<D> d(m.make());
  m.hyp(*d, hy);
  for (auto& [x, w] : data) d->incorporate(x, w);
  return d;
}
template <class D, class T>
static void agree(const M<D, T>& m, D& a, D& b, const std::string& msg) {
  same(m.stats(a), m.stats(b), msg);
  if (m.gethyp(a) != m.gethyp(b)) fail(msg + " (hyperparameters)");
  near(a.logp_score(), b.logp_score(), msg + " (logp_score)", 1e-5);
  for (auto&& x : m.probes) near(a.logp(x), b.logp(x), msg + " (logp of " + qs(x) + ")", 1e-5);
}

template <class D, class T>
static void c03(const M<D, T>& m) {
  V hy = m.rhyp();
  begin(m.name + " add/remove", strv(hy));
  auto d = build(m, hy, {});
  auto empty = m.stats(*d);
  V h0 = m.gethyp(*d);
  WL<T> data;
  int n = ri(1, 10);
  for (int s = 0; s < n; s++) {
    if (ri(0, 2) || data.empty()) {
      T x = m.obs();
      double w = ri(0, 2) ? 1 : pick<double>({0.5, 2, 0.25, 3, 1.5});
      op("incorporate " + qs(x) + " weight " + str(w));
      auto before = m.stats(*d);
      double n0 = d->N;
      d->incorporate(x, w);
      near(d->N, n0 + w, "N does not grow by the weight", 1e-9);
      if (ri(0, 1)) {   // undo and redo
        auto with = m.stats(*d);
        op("undo, redo");
        if (w == 1 && ri(0, 1)) d->unincorporate(x); else d->incorporate(x, -w);
        same(m.stats(*d), before, "removing an absorbed observation does not restore the statistics");
        if (before == empty) { auto f = build(m, hy, {}); agree(m, *d, *f, "emptied model differs from a new one"); }
        d->incorporate(x, w);
        same(m.stats(*d), with, "absorbing again gives other statistics");
      }
      data.push_back({x, w});
    } else {
      int i = ri(0, data.size() - 1);
      auto [x, w] = data[i];
      op("remove " + qs(x) + " weight " + str(w));
      double n0 = d->N;
      if (w == 1) d->unincorporate(x); else d->incorporate(x, -w);
      near(d->N, n0 - w, "N does not shrink by the weight", 1e-9);
      data.erase(data.begin() + i);
    }
    double tot = 0;
    for (auto& p : data) tot += p.second;
    near(d->N, tot, "N is not the sum of the absorbed weights", 1e-9);
    if (m.gethyp(*d) != h0) fail("absorbing data changed a hyperparameter");
  }
  auto sh = data;
  std::shuffle(sh.begin(), sh.end(), rng);
  auto e = build(m, hy, sh);
  agree(m, *d, *e, "history and rebuilt model differ");
  // weights add
  std::shuffle(sh.begin(), sh.end(), rng);
  std::unique_ptr<D> f(m.make());
  m.hyp(*f, hy);
  for (auto& [x, w] : sh) { double u = ri(0, 1) ? w / 2 : w; f->incorporate(x, u); if (u != w) f->incorporate(x, w - u); }
  agree(m, *d, *f, "splitting a weight changes the model");
  done(data.size() > 1);
}

template <class D, class T>
static void c04(const M<D, T>& m) {
  V hy = m.rhyp();
  begin(m.name + " chain rule", strv(hy));
  auto d = build(m, hy, {});
  double total = 0;
  if (m.conj) near(d->logp_score(), 0, "the score of no data is not zero", 1e-7);
  int n = ri(1, 9);
  for (int s = 0; s < n; s++) {
    T x = m.obs();
    auto st = m.stats(*d);
    V h0 = m.gethyp(*d);
    double s0 = d->logp_score();
    double lp = d->logp(x);
    same(m.stats(*d), st, "logp or logp_score changed the model", 1e-7);
    if (m.gethyp(*d) != h0) fail("logp or logp_score changed a hyperparameter");
    for (auto&& p : m.probes) {
      double q = d->logp(p);
      same(m.stats(*d), st, "logp changed the model", 1e-7);
      d->incorporate(p);
      double s1 = d->logp_score();
      d->unincorporate(p);
      near(q, s1 - s0, "logp(" + qs(p) + ") is not the change of logp_score", 1e-5);
    }
    near(d->logp_score(), s0, "logp changed the score", 1e-6);
    d->incorporate(x);
    op("incorporate " + qs(x));
    near(lp, d->logp_score() - s0, "logp is not the change of logp_score", 1e-5);
    total += lp;
  }
  near(d->logp_score(), total, "logp_score is not the chain of predictive probabilities", 1e-5);
  done(n > 1);
}

// ---- C05
template <class T>
static void freq(const std::string& what, const std::map<T, int>& f, int Mx, const std::vector<std::pair<T, double>>& want) {
  for (auto& [x, p] : want) {
    auto it = f.find(x);
    double q = it == f.end() ? 0 : it->second / (double)Mx;
    double sd = std::sqrt(std::max(p * (1 - p), 1e-9) / Mx);
    if (std::fabs(q - p) > 6 * sd + 2.0 / Mx) fail(what + ": value " + qs(x) + " sampled with frequency " + str(q) + " but has probability " + str(p));
  }
}

template <class D, class T>
static std::unique_ptr<D> filled(const M<D, T>& m, int maxn = 8, std::unique_ptr<D>* twin = nullptr) {
  V hy = m.rhyp();
  begin(m.name + " sampling", strv(hy));
  WL<T> data;
  int n = ri(0, maxn);
  for (int i = 0; i < n; i++) { data.push_back({m.obs(), ri(0, 3) ? 1. : pick<double>({0.5, 2, 1.25})}); op(qs(data.back().first) + " x" + str(data.back().second)); }
  if (twin) *twin = build(m, hy, data);
  return build(m, hy, data);
}

template <class D, class T>
static void c05finite(const M<D, T>& m, const std::vector<T>& support) {
  auto d = filled(m);
  double tot = 0;
  std::vector<std::pair<T, double>> want;
  for (auto&& x : support) { double p = std::exp(d->logp(x)); tot += p; want.push_back({x, p}); }
  near(tot, 1, "predictive probabilities do not sum to one", 1e-7);
  auto st = m.stats(*d);
  V h0 = m.gethyp(*d);
  std::mt19937 prng(rng());
  std::map<T, int> f;
  const int K = 3000;
  for (int i = 0; i < K; i++) f[d->sample(&prng)]++;
  same(m.stats(*d), st, "sampling changed the model", 1e-9);
  if (m.gethyp(*d) != h0) fail("sampling changed a hyperparameter");
  for (auto& [x, c] : f) check(std::find(support.begin(), support.end(), x) != support.end(), "sampled a value outside the support");
  freq(m.name, f, K, want);
  done();
}

static void c05skellam() {
  auto m = sk();
  auto d = filled(m);
  double tot = 0;
  std::vector<std::pair<int, double>> want;
  for (int x = -80; x <= 80; x++) { double p = std::exp(d->logp(x)); tot += p; want.push_back({x, p}); }
  near(tot, 1, "predictive probabilities do not sum to one", 1e-6);
  auto st = m.stats(*d);
  std::mt19937 prng(rng());
  std::map<int, int> f;
  const int K = 3000;
  for (int i = 0; i < K; i++) f[d->sample(&prng)]++;
  same(m.stats(*d), st, "sampling changed the model", 1e-9);
  freq("Skellam", f, K, want);
  done();
}

// strings: P(prefix ends here) + P(one more letter) telescopes; frequencies of the short strings
template <class D>
static void c05bigram(const M<D, std::string>& m, char lo, char hi, size_t maxlen) {
  auto d = filled(m, 6);
  auto st = m.stats(*d);
  // mass of all strings of length <= L plus the mass of the prefixes still open
  V h0 = m.gethyp(*d);
  std::mt19937 prng(rng());
  std::map<std::string, int> f;
  const int K = 2500;
  int at_max = 0;
  for (int i = 0; i < K; i++) {
    std::string s = d->sample(&prng);
    check(maxlen == 0 || s.size() <= maxlen, "sampled string longer than max_length");
    for (char c : s) check(c >= lo && c <= hi, "sampled a character outside the alphabet");
    if (maxlen && s.size() == maxlen) at_max++;
    f[s]++;
    if (i % 500 == 0) same(m.stats(*d), st, "sampling changed the model", 1e-9);
  }
  same(m.stats(*d), st, "sampling changed the model", 1e-9);
  if (m.gethyp(*d) != h0) fail("sampling changed a hyperparameter");
  std::vector<std::pair<std::string, double>> want;
  std::vector<std::string> todo{""};
  double mass = 0;
  for (int L = 0; L <= 2; L++) {
    std::vector<std::string> nx;
    for (auto& s : todo) {
      if (maxlen == 0 || s.size() < maxlen) { double p = std::exp(d->logp(s)); want.push_back({s, p}); mass += p; }
      for (char c = lo; c <= hi; c++) nx.push_back(s + c);
    }
    todo = nx;
  }
  check(mass <= 1 + 1e-7, "short strings have probability above one");
  freq(m.name, f, K, want);
  // the mass of the one-character extensions: sum over strings of length <= L of P, and what is left, is a probability that decreases
  done();
}
// exact normalisation of the n-gram model: sum over all strings of length <= L equals 1 - P(length > L), where P(length > L) comes from
// the same model by summing open prefixes through a model whose stop symbol cannot be reached
static void c05bigram_norm() {
  auto m = bg();
  bghi = 'a' + ri(0, 1);
  bgmax = 0;
  V hy{pick<double>({0.02, 0.1})};
  begin("Bigram normalisation", strv(hy));
  // data that makes long strings improbable
  WL<std::string> data;
  int n = ri(2, 6);
  for (int i = 0; i < n; i++) { data.push_back({m.obs().substr(0, 2), (double)ri(5, 40)}); op(qs(data.back().first) + " x" + str(data.back().second)); }
  data.push_back({"a", 30});
  data.push_back({std::string(1, bghi), 30});
  auto d = build(m, hy, data);
  double mass = 0, last = 0;
  std::vector<std::string> todo{""};
  for (int L = 0; L <= 9; L++) {
    std::vector<std::string> nx;
    last = 0;
    for (auto& s : todo) { double p = std::exp(d->logp(s)); mass += p; last += p; for (char c = 'a'; c <= bghi; c++) nx.push_back(s + c); }
    todo = nx;
  }
  check(mass <= 1 + 1e-7, "string probabilities sum to more than one");
  check(mass >= 1 - 200 * last - 1e-3, "string probabilities sum to less than one: " + str(mass) + ", mass of the longest class " + str(last));
  done();
}

static double tdf(const Normal& d) { return d.v + d.N; }
static double tdf(const ZeroMeanNormal& d) { return 2 * d.alpha + d.N; }
// continuous: exp(logp) integrates to one and the empirical distribution of samples matches the integral
template <class D>
static void c05cont(const M<D, double>& m, bool shape) {
  // the density is read off a twin: far out in the tails asking for it costs the Gaussian model precision
  std::unique_ptr<D> w0;
  auto d0 = filled(m, 8, &w0);
  D* d = w0.get();
  auto st = m.stats(*d);
  V h0 = m.gethyp(*d);
  // substitution x = c + w*tan(u)
  double c = 0, w = 1;
  double best = -1e300;
  for (double x = -60; x <= 60; x += 0.25) { double l = d->logp(x); if (l > best) { best = l; c = x; } }
  w = std::exp(-best) / 2;
  if (!(w > 0) || w > 1e6) return;
  if (tdf(*d) < 1) return;   // tails too heavy for the grid
  const int G = 8000;
  std::vector<double> X(G), P(G);
  double tot = 0;
  for (int i = 0; i < G; i++) {
    double u = (i + 0.5) / G;
    double x = c + w * std::tan(M_PI * (u - 0.5));
    double j = w * M_PI / std::pow(std::cos(M_PI * (u - 0.5)), 2) / G;
    double p = std::exp(d->logp(x)) * j;
    tot += p;
    X[i] = x;
    P[i] = tot;
  }
  if (std::fabs(tot - 1) > 0.02) fail("predictive density does not integrate to one: " + str(tot));
  std::mt19937 prng(rng());
  const int K = 3000;
  std::vector<double> s;
  for (int i = 0; i < K; i++) s.push_back(d0->sample(&prng));
  same(m.stats(*d0), st, "sampling changed the model", 1e-9);
  if (m.gethyp(*d0) != h0) fail("sampling changed a hyperparameter");
  if (!shape) { done(); return; }
  std::sort(s.begin(), s.end());
  for (int q = 1; q < 20; q++) {
    double x = X[G * q / 20], F = P[G * q / 20] / tot;
    double e = (std::upper_bound(s.begin(), s.end(), x) - s.begin()) / (double)K;
    double sd = std::sqrt(F * (1 - F) / K);
    if (std::fabs(e - F) > 6 * sd + 0.012) fail(m.name + ": fraction of samples below " + str(x) + " is " + str(e) + ", predictive says " + str(F));
  }
  done();
}

// ZeroMeanNormal::sample: the scale is a recorded known finding (zmn-sample-scale); samples must follow a Student-t with
// 2(alpha+N/2) degrees of freedom and one of the two scales
static void c05zmn() {
  auto m = zm();
  auto d = filled(m);
  auto st = m.stats(*d);
  double a = d->alpha + d->N / 2;
  double sc1 = std::sqrt((d->beta + 0.5 * d->N * d->var) / a), sc2 = std::sqrt((d->beta + d->N * d->var) / a);
  std::mt19937 prng(rng()), p2(rng());
  const int K = 4000;
  std::vector<double> s, t;
  for (int i = 0; i < K; i++) s.push_back(d->sample(&prng));
  same(m.stats(*d), st, "sampling changed the model", 1e-9);
  std::student_t_distribution<double> T(2 * a);
  for (int i = 0; i < 4 * K; i++) t.push_back(T(p2));
  std::sort(s.begin(), s.end());
  std::sort(t.begin(), t.end());
  double worst[2] = {0, 0};
  for (int k = 0; k < 2; k++)
    for (int q = 1; q < 20; q++) {
      double x = t[t.size() * q / 20] * (k ? sc2 : sc1), F = q / 20.;
      double e = (std::upper_bound(s.begin(), s.end(), x) - s.begin()) / (double)K;
      worst[k] = std::max(worst[k], std::fabs(e - F) / (std::sqrt(F * (1 - F) / K) * 1.12));
    }
  if (std::min(worst[0], worst[1]) > 7) fail("ZeroMeanNormal samples follow neither the predictive nor the recorded scale");
  done();
}

// ---- C06
template <class D, class T>
static void c06(const M<D, T>& m, std::function<double(D&)> target, std::function<bool(const V&)> valid) {
  V hy = m.rhyp();
  begin(m.name + " hyperparameter move", strv(hy));
  WL<T> data;
  int n = ri(0, 7);
  for (int i = 0; i < n; i++) { data.push_back({m.obs(), 1.}); op(qs(data.back().first)); }
  auto d = build(m, hy, data);
  auto st = m.stats(*d);
  std::mt19937 prng(rng());
  std::map<V, int> f;
  const int K = m.name == "Normal" || m.name == "Bigram" || m.name == "StringNat" || m.name == "Skellam" ? 300 : 1200;
  V latent0 = m.gethyp(*d);
  for (int i = 0; i < K; i++) {
    if (i == K / 2) m.hyp(*d, m.rhyp());   // the outcome must not depend on where the move starts
    if (i >= K / 2 && m.name == "Skellam") { d = build(m, hy, data); }
    d->transition_hyperparameters(&prng);
    V g = m.gethyp(*d);
    if (!valid(g)) fail("hyperparameters left their valid range: " + strv(g));
    f[g]++;
    if (i < 3 || i > K - 3) same(m.stats(*d), st, "the hyperparameter move changed the data", 1e-9);
  }
  if (m.name == "Skellam") for (auto& [g, c] : f) check(g[4] == latent0[4] && g[5] == latent0[5], "the hyperparameter move changed the latent values");
  // pairwise odds of the most frequent settings
  std::vector<std::pair<int, V>> top;
  for (auto& [g, c] : f) top.push_back({c, g});
  std::sort(top.rbegin(), top.rend());
  std::vector<double> sc;
  for (size_t i = 0; i < top.size() && i < 6; i++) { m.hyp(*d, top[i].second); sc.push_back(target(*d)); }
  for (size_t i = 0; i < sc.size(); i++)
    for (size_t j = i + 1; j < sc.size(); j++) {
      double nn = top[i].first + top[j].first;
      if (nn < 30) continue;
      double p = 1 / (1 + std::exp(sc[j] - sc[i]));
      double q = top[i].first / nn;
      if (std::fabs(q - p) > 6.5 * std::sqrt(std::max(p * (1 - p), 0.25 / nn) / nn) + 1 / nn)
        fail("settings " + strv(top[i].second) + " and " + strv(top[j].second) + " chosen with odds " + str(q) + ", their scores give " + str(p));
    }
  done(n > 0);
}
static bool allpos(const V& v) { for (double x : v) if (!(x > 0 && std::isfinite(x))) return false; return true; }
template <class D> static double ls(D& d) { return d.logp_score(); }
static double lognorm(double x, double mean, double sd) { double y = (std::log(x) - mean) / sd; return -y * y / 2 - std::log(x * sd) - 0.5 * std::log(2 * M_PI); }
// every candidate of the grid is reachable: settings with clearly the best score must win
template <class D, class T>
static void c06best(const M<D, T>& m, const std::vector<V>& grid, std::function<double(D&)> target) {
  V hy = m.rhyp();
  begin(m.name + " hyperparameter grid", strv(hy));
  WL<T> data;
  int n = ri(0, 7);
  for (int i = 0; i < n; i++) { data.push_back({m.obs(), 1.}); op(qs(data.back().first)); }
  auto d = build(m, hy, data);
  std::vector<double> s;
  double mx = -INFINITY, z = 0;
  for (auto& g : grid) { m.hyp(*d, g); s.push_back(target(*d)); mx = std::max(mx, s.back()); }
  for (double x : s) z += std::exp(x - mx);
  std::mt19937 prng(rng());
  std::map<V, int> f;
  m.hyp(*d, hy);
  const int K = 500;
  for (int i = 0; i < K; i++) { d->transition_hyperparameters(&prng); f[m.gethyp(*d)]++; }
  int seen = 0;
  for (size_t i = 0; i < grid.size(); i++) {
    double p = std::exp(s[i] - mx) / z;
    m.hyp(*d, grid[i]);
    V key = m.gethyp(*d);
    int c = f.count(key) ? f[key] : 0;
    seen += c;
    double q = c / (double)K;
    if (std::fabs(q - p) > 6.5 * std::sqrt(p * (1 - p) / K) + 2.0 / K) fail("setting " + strv(grid[i]) + " chosen with frequency " + str(q) + ", its share of exp(score) is " + str(p));
  }
  check(seen == K, "a setting outside the grid was chosen");
  done(n > 0);
}

static void c06theta() {
  auto m = sk();
  V hy = m.rhyp();
  begin("Skellam latent move", strv(hy));
  WL<int> data;
  int n = ri(0, 4);
  for (int i = 0; i < n; i++) { data.push_back({m.obs(), 1.}); op(qs(data.back().first)); }
  auto d = build(m, hy, data);
  auto st = m.stats(*d);
  std::mt19937 prng(rng());
  double expect = 0, var = 0;
  int acc = 0, known = 0;
  const int K = 400;
  for (int i = 0; i < K; i++) {
    V old = m.gethyp(*d);
    double so = d->logp_score();
    auto c = build(m, old, data);
    std::mt19937 p2 = prng;
    c->init_theta(&p2);
    double sn = c->logp_score();
    if (!std::isfinite(so) || !std::isfinite(sn)) { d->transition_theta(&prng); m.hyp(*d, hy); continue; }
    d->transition_theta(&prng);
    V now = m.gethyp(*d), cand = m.gethyp(*c);
    check(V(now.begin(), now.begin() + 4) == V(old.begin(), old.begin() + 4), "the latent move changed a hyperparameter");
    check(now[4] > 0 && now[5] > 0, "latent rate not positive");
    if (now == old || now == cand) {
      known++;
      double a = std::min(1., std::exp(sn - so));
      if (now == cand && now != old) acc++; else if (a > 0.999999 && cand != old) fail("a proposal with a higher score was rejected");
      expect += a;
      var += a * (1 - a);
    }
  }
  same(m.stats(*d), st, "the latent move changed the data", 1e-9);
  if (known > K * 9 / 10 && std::fabs(acc - expect) > 6.5 * std::sqrt(var + 1) + 2) fail("acceptance rate " + str(acc) + " of " + str(known) + ", Metropolis-Hastings gives " + str(expect));
  done(n > 0);
}

int main(int argc, char** argv) {
  auto dcs = [] { auto m = dc(); c05finite(m, m.probes); };
  auto scs = [] { auto m = sc(); c05finite(m, scv); };
  auto agrid = [] { std::vector<V> g; for (double a : std::vector<double> ALPHA_GRID) g.push_back({a}); return g; };
  return run(argc, argv, {
    {"C03", {[] { c03(bb()); }, [] { c03(dc()); }, [] { c03(no()); }, [] { c03(zm()); }, [] { c03(bg()); }, [] { c03(sn()); }, [] { c03(sc()); }, [] { c03(sk()); }, [] { c03(adc()); }, [] { c03(adn()); }}},
    {"C04", {[] { c04(bb()); }, [] { c04(dc()); }, [] { c04(no()); }, [] { c04(zm()); }, [] { c04(bg()); }, [] { c04(sn()); }, [] { c04(sc()); }, [] { c04(sk()); }, [] { c04(adc()); }, [] { c04(adn()); }}},
    {"C05", {[] { c05finite(bb(), {false, true}); }, dcs, scs, c05skellam, [] { auto m = bg(); if (bgmax == 0 || ri(0, 3) == 0) { bgmax = ri(0, 2) ? 12 : 0; if (!bgmax) m.rhyp = [] { return V{10}; }; } c05bigram(m, 'a', bghi, bgmax); }, [] { c05bigram(sn(), '0', '9', 20); }, c05bigram_norm,
             [] { c05cont(no(), true); }, [] { c05cont(zm(), false); }, c05zmn, [] { auto m = adc(); std::vector<std::string> s; for (int i = 0; i < dck; i++) s.push_back(std::to_string(i)); c05finite(m, s); }}},
    {"C06", {[] { c06<BetaBernoulli, bool>(bb(), ls<BetaBernoulli>, allpos); }, [] { c06<DirichletCategorical, int>(dc(), ls<DirichletCategorical>, allpos); },
             [] { c06<ZeroMeanNormal, double>(zm(), ls<ZeroMeanNormal>, allpos); },
             [] { c06<Normal, double>(no(), ls<Normal>, [](const V& v) { return v[0] > 0 && v[1] > 0 && v[3] > 0; }); },
             [] { c06<Bigram, std::string>(bg(), ls<Bigram>, [](const V& v) { for (double x : v) if (x != v[0]) return false; return v[0] > 0; }); },
             [] { c06<StringCat, std::string>(sc(), ls<StringCat>, allpos); },
             [] { c06<Skellam, int>(sk(), [](Skellam& d) { return lognorm(d.mu1, d.mean1, d.stddev1) + lognorm(d.mu2, d.mean2, d.stddev2); }, [](const V& v) { return v[1] > 0 && v[3] > 0; }); },
             [] { c06<ADC, std::string>(adc(), ls<ADC>, allpos); },
             [agrid] { c06best<DirichletCategorical, int>(dc(), agrid(), ls<DirichletCategorical>); },
             [agrid] { c06best<Bigram, std::string>(bg(), agrid(), ls<Bigram>); },
             [agrid] { c06best<StringCat, std::string>(sc(), agrid(), ls<StringCat>); },
             [] { auto m = bb(); BetaBernoulli b; std::vector<V> g; for (double x : b.alpha_grid) for (double y : b.beta_grid) g.push_back({x, y}); c06best<BetaBernoulli, bool>(m, g, ls<BetaBernoulli>); },
             [] { std::vector<V> g; for (double r : std::vector<double> R_GRID) for (double v : std::vector<double> V_GRID) for (double mm : std::vector<double> M_GRID) for (double s : std::vector<double> S_GRID) g.push_back({r, v, mm, s}); c06best<Normal, double>(no(), g, ls<Normal>); },
             c06theta}},
  });
}
