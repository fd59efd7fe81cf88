// C01 C02 C06(crp) C07: CRP, Domain, util_math
#include "h.hh"
#include "distributions/crp.hh"
#include "domain.hh"
#include "util_math.hh"

using namespace h;

static double crp_joint(const CRP& c) {
  double s = 0;
  int n = 0;
  for (auto& [t, cs] : c.tables) { s += std::log(c.alpha) + std::lgamma((double)cs.size()); n += cs.size(); }
  return s + std::lgamma(c.alpha) - std::lgamma(n + c.alpha);
}

static void crp_inv(const CRP& c) {
  size_t n = 0;
  for (auto& [t, cs] : c.tables) {
    check(!cs.empty(), "a table has no customer");
    for (int x : cs) {
      check(c.assignments.count(x) == 1, "customer of a table has no assignment");
      check(c.assignments.at(x) == t, "customer listed at a table it is not assigned to");
    }
    n += cs.size();
  }
  check(n == c.assignments.size(), "assignments and tables differ");
  check(c.N == (int)n, "N is not the number of items");
}

struct Ref { std::map<int, int> a; };
static void crp_same(const CRP& c, const std::map<int, int>& a) {
  check(c.assignments.size() == a.size(), "wrong number of assigned items");
  for (auto& [i, t] : a) {
    check(c.assignments.count(i), "item lost");
    check(c.assignments.at(i) == t, "item moved to another table");
    check(c.tables.count(t) && c.tables.at(t).count(i), "item not among its table's customers");
  }
}

static void crp_weights(CRP& c) {
  auto w = c.tables_weights();
  double sum = 0;
  int fresh = 0;
  int mt = -1;
  for (auto& [t, cs] : c.tables) mt = std::max(mt, t);
  check(c.max_table() == mt, "max_table is not the largest table");
  for (auto& [t, x] : w) {
    sum += x;
    if (c.tables.count(t)) near(x, c.tables.at(t).size(), "weight of an existing table is not its size");
    else { fresh++; if (c.N) near(x, c.alpha, "weight of the new table is not alpha"); }
  }
  check(fresh == 1, "exactly one new table expected in the weights");
  for (auto& [t, cs] : c.tables) check(w.count(t), "existing table missing from the weights");
  if (c.N) near(sum, c.N + c.alpha, "weights do not sum to N + alpha");
  // chain rule
  double s0 = c.logp_score();
  near(s0, crp_joint(c), "logp_score is not the CRP law of the partition");
  double tot = 0;
  for (auto& [t, x] : w) {
    double lp = c.logp(t);
    tot += std::exp(lp);
    CRP d = c;
    d.incorporate(1000000, t);
    near(lp, d.logp_score() - s0, "logp(table) is not the change of logp_score");
  }
  near(tot, 1, "exp(logp) does not sum to one over the choices");
  if (c.N) near(c.logp_new_table(), c.logp(mt + 1), "logp_new_table differs from logp of the new table");
  check(std::isinf(c.logp(mt + 1 + ri(1, 5))) || false, "impossible table has finite logp");
}

static void crp_gibbs(CRP& c) {
  for (auto& [t, cs] : c.tables) {
    int item = *cs.begin();
    auto g = c.tables_weights_gibbs(t);
    CRP d = c;
    d.unincorporate(item);
    auto w = d.tables_weights();
    double newg = 0, sumg = 0;
    int others = 0;
    for (auto& [k, x] : g) {
      sumg += x;
      if (d.tables.count(k)) near(x, d.tables.at(k).size(), "gibbs weight is not the size without the item");
      else { others++; newg = x; }
    }
    for (auto& [k, s] : d.tables) check(g.count(k), "gibbs weights miss a table");
    check(others == 1, "gibbs weights offer not exactly one new table");
    near(newg, c.alpha, "gibbs new-table weight is not alpha");
    near(sumg, c.N - 1 + c.alpha, "gibbs weights do not sum to N-1+alpha");
  }
}

static void crp_history(bool weights) {
  CRP c;
  c.alpha = pick<double>({1., 0.3, 2.5, 0.01, 17.});
  std::map<int, int> a;
  begin("crp-history", "alpha=" + str(c.alpha));
  if (weights) crp_weights(c);
  int n = ri(1, 14);
  std::mt19937 prng(rng());
  for (int s = 0; s < n; s++) {
    int k = ri(0, 9);
    if (k < 5 || a.empty()) {
      int item = ri(0, 40);
      if (a.count(item)) continue;
      int t;
      int mode = ri(0, 2);
      auto w = c.tables_weights();
      if (mode == 0) t = c.sample(&prng);
      else if (mode == 1) t = std::next(w.begin(), ri(0, w.size() - 1))->first;
      else t = ri(0, 6);
      op("incorporate " + str(item) + " table " + str(t));
      if (mode == 0) check(w.count(t), "sample returned a table that is not a choice");
      c.incorporate(item, t);
      a[item] = t;
    } else if (k < 8) {
      auto it = std::next(a.begin(), ri(0, a.size() - 1));
      op("unincorporate " + str(it->first));
      c.unincorporate(it->first);
      a.erase(it);
    } else {
      op("transition_alpha");
      double before = c.logp_score();
      (void)before;
      double oldalpha = c.alpha;
      c.transition_alpha(&prng);
      check(c.alpha > 0 && std::isfinite(c.alpha), "alpha is not positive and finite");
      if (c.N == 0) check(c.alpha == oldalpha, "alpha moved with no data");
      else check(c.alpha >= 1. / c.N - 1e-9 && c.alpha <= c.N + 1 + 1e-9, "alpha outside the grid");
    }
    crp_inv(c);
    crp_same(c, a);
    if (weights) { crp_weights(c); crp_gibbs(c); }
  }
  // exchangeability: rebuild in another order
  if (weights && !a.empty()) {
    std::vector<std::pair<int, int>> v(a.begin(), a.end());
    std::shuffle(v.begin(), v.end(), rng);
    CRP d;
    d.alpha = c.alpha;
    for (auto& [i, t] : v) d.incorporate(i, t);
    near(d.logp_score(), c.logp_score(), "logp_score depends on arrival order");
    CRP e;
    e.alpha = c.alpha;
    for (auto& [i, t] : v) e.incorporate(i, 100 - 3 * t);
    near(e.logp_score(), c.logp_score(), "logp_score depends on table names");
  }
  done(a.size() > 1);
}

static void domain_history() {
  Domain d("D");
  std::map<int, int> a;
  begin("domain-history");
  std::mt19937 prng(rng());
  d.crp.alpha = pick<double>({1., 0.3, 2.5});
  int n = ri(1, 14);
  for (int s = 0; s < n; s++) {
    int k = ri(0, 9);
    if (k < 5 || a.empty()) {
      int item = ri(0, 30);
      if (ri(0, 1) || a.count(item)) {
        op("incorporate " + str(item));
        bool had = a.count(item);
        d.incorporate(&prng, item);
        if (!had) a[item] = d.get_cluster_assignment(item);
      } else {
        int t = ri(0, 5);
        op("incorporate " + str(item) + " table " + str(t));
        d.incorporate(ri(0, 1) ? &prng : nullptr, item, t);
        a[item] = t;
      }
    } else if (k < 7) {
      auto it = std::next(a.begin(), ri(0, a.size() - 1));
      op("unincorporate " + str(it->first));
      d.unincorporate(it->first);
      a.erase(it);
    } else {
      auto it = std::next(a.begin(), ri(0, a.size() - 1));
      int t = ri(0, 7);
      if (t == it->second) continue;
      op("set_cluster_assignment_gibbs " + str(it->first) + " -> " + str(t));
      d.set_cluster_assignment_gibbs(it->first, t);
      it->second = t;
    }
    crp_inv(d.crp);
    crp_same(d.crp, a);
    check(d.items.size() == a.size(), "Domain items differ from its partition");
    for (auto& [i, t] : a) {
      check(d.items.count(i), "Domain lost an item");
      check(d.get_cluster_assignment(i) == t, "Domain reports another cluster");
      check(d.tables_weights_gibbs(i) == d.crp.tables_weights_gibbs(t), "Domain gibbs weights differ from its CRP's");
    }
    check(d.tables_weights() == d.crp.tables_weights(), "Domain weights differ from its CRP's");
  }
  done(a.size() > 1);
}

// frequencies of sample() against the weights
static void crp_sample_freq() {
  CRP c;
  c.alpha = pick<double>({1., 0.5, 3.});
  begin("crp-sample-frequencies", "alpha=" + str(c.alpha));
  int n = ri(0, 6);
  for (int i = 0; i < n; i++) { int t = ri(0, 3) * 2; op("incorporate " + str(i) + " at " + str(t)); c.incorporate(i, t); }
  auto w = c.tables_weights();
  double sum = 0;
  for (auto& [t, x] : w) sum += x;
  std::map<int, int> f;
  std::mt19937 prng(rng());
  const int M = 4000;
  for (int i = 0; i < M; i++) f[c.sample(&prng)]++;
  for (auto& [t, k] : f) check(w.count(t), "sample returned a table that is not a choice");
  for (auto& [t, x] : w) {
    double p = x / sum, sd = std::sqrt(p * (1 - p) / M);
    check(std::fabs(f[t] / (double)M - p) <= 6 * sd + 1e-9, "sample frequency of table " + str(t) + " is far from its weight");
  }
  done();
}

static void math_case() {
  std::mt19937 prng(rng());
  int k = ri(0, 6);
  if (k == 0) {
    int n = ri(1, 8);
    std::vector<double> w(n);
    double scale = pick<double>({0.1, 1, 50, 2000});
    for (auto& x : w) { x = rd(-scale, scale); if (ri(0, 5) == 0) x = -INFINITY; }
    bool allinf = true;
    for (auto& x : w) allinf &= std::isinf(x);
    if (allinf) w[ri(0, n - 1)] = rd(-scale, scale);
    begin("logsumexp", strv(w));
    long double m = -INFINITY;
    for (auto x : w) m = std::max(m, (long double)x);
    long double s = 0;
    for (auto x : w) s += expl(x - m);
    double want = m + logl(s);
    near(logsumexp(w), want, "logsumexp", 1e-9);
    auto l = log_normalize(w);
    check(l.size() == w.size(), "log_normalize changes the length");
    for (int i = 0; i < n; i++) {
      if (std::isinf(w[i])) check(std::isinf(l[i]) && l[i] < 0, "log_normalize of -inf");
      else near(l[i], w[i] - want, "log_normalize", 1e-9);
    }
    for (int rep = 0; rep < 5; rep++) {
      int c = log_choice(w, &prng);
      check(0 <= c && c < n, "log_choice out of range");
      check(!std::isinf(w[c]), "log_choice picked an impossible outcome");
      int d = sample_from_logps(w, &prng);
      check(0 <= d && d < n, "sample_from_logps out of range");
      check(!std::isinf(w[d]), "sample_from_logps picked an impossible outcome");
    }
    done(n > 1);
  } else if (k == 1) {
    double a = rd(-10, 10), b = a + rd(0.01, 20);
    int n = ri(2, 30);
    bool e = ri(0, 1);
    begin("linspace", str(a) + " " + str(b) + " " + str(n) + " " + str(e));
    auto v = linspace(a, b, n, e);
    check((int)v.size() == n, "linspace length");
    for (int i = 0; i < n; i++) near(v[i], a + (b - a) * i / (e ? n - 1 : n), "linspace value", 1e-9);
    double la = rd(0.01, 3), lb = la + rd(0.01, 50);
    auto g = log_linspace(la, lb, n, e);
    check((int)g.size() == n, "log_linspace length");
    for (int i = 0; i < n; i++) near(g[i], std::exp(std::log(la) + (std::log(lb) - std::log(la)) * i / (e ? n - 1 : n)), "log_linspace value", 1e-9);
    done();
  } else if (k == 2) {
    int n = ri(1, 4);
    std::vector<std::vector<int>> ls(n);
    std::string d;
    size_t tot = 1;
    for (auto& l : ls) { int m = ri(0, 9) == 0 ? 0 : ri(1, 4); for (int i = 0; i < m; i++) l.push_back(ri(-3, 3) * 10 + i); d += strv(l); tot *= m; }
    begin("product", d);
    auto p = product(ls);
    check(p.size() == tot, "product has the wrong number of tuples");
    // lexicographic enumeration
    for (size_t i = 0; i < p.size(); i++) {
      check(p[i].size() == ls.size(), "product tuple has the wrong length");
      size_t r = i;
      for (int j = n - 1; j >= 0; j--) { check(p[i][j] == ls[j][r % ls[j].size()], "product tuple wrong"); r /= ls[j].size(); }
    }
    done(tot > 1);
  } else if (k == 3) {
    double z = rd(0.05, 40), w = rd(0.05, 40);
    begin("lbeta", str(z) + " " + str(w));
    near(lbeta(z, w), std::lgamma(z) + std::lgamma(w) - std::lgamma(z + w), "lbeta", 1e-9);
    near(lbeta(z + 1, w), lbeta(z, w) + std::log(z / (z + w)), "lbeta recurrence", 1e-7);
    done();
  } else if (k == 4) {
    int n = ri(1, 6);
    std::vector<double> w(n);
    double sum = 0;
    for (auto& x : w) { x = ri(0, 3) ? rd(0, 5) : 0; sum += x; }
    if (sum == 0) { w[0] = 1; sum = 1; }
    begin("choice-frequencies", strv(w));
    const int M = 3000;
    std::vector<int> f(n), g(n), q(n);
    std::vector<double> lw;
    double sh = rd(-300, 300);
    for (double x : w) lw.push_back(std::log(x) + sh);
    for (int i = 0; i < M; i++) { f.at(choice(w, &prng))++; g.at(log_choice(lw, &prng))++; q.at(sample_from_logps(lw, &prng))++; }
    for (int i = 0; i < n; i++) {
      double p = w[i] / sum, sd = std::sqrt(p * (1 - p) / M);
      check(std::fabs(f[i] / (double)M - p) <= 6 * sd + 1e-9, "choice frequency of outcome " + str(i));
      check(std::fabs(g[i] / (double)M - p) <= 6 * sd + 1e-9, "log_choice frequency of outcome " + str(i));
      check(std::fabs(q[i] / (double)M - p) <= 6 * sd + 1e-9, "sample_from_logps frequency of outcome " + str(i));
    }
    done(n > 1);
  }
}

// alpha is resampled from its grid posterior
static void alpha_freq() {
  CRP c;
  begin("transition-alpha-frequencies");
  int n = ri(1, 8);
  for (int i = 0; i < n; i++) { int t = ri(0, 3); op("incorporate " + str(i) + " at " + str(t)); c.incorporate(i, t); }
  std::vector<double> grid, lp;
  int G = 20;
  for (int i = 0; i < G; i++) {
    double g = std::exp(std::log(1. / n) + (std::log(n + 1.) - std::log(1. / n)) * i / (G - 1));
    CRP d = c;
    d.alpha = g;
    grid.push_back(g);
    lp.push_back(crp_joint(d));
  }
  double m = -INFINITY, s = 0;
  for (double x : lp) m = std::max(m, x);
  for (double x : lp) s += std::exp(x - m);
  const int M = 4000;
  std::vector<int> f(G);
  std::mt19937 prng(rng());
  for (int i = 0; i < M; i++) {
    CRP d = c;
    d.transition_alpha(&prng);
    int b = -1;
    for (int j = 0; j < G; j++) if (close(grid[j], d.alpha, 1e-9)) b = j;
    check(b >= 0, "alpha is not a grid point");
    f[b]++;
    crp_same(d, std::map<int, int>(c.assignments.begin(), c.assignments.end()));
  }
  for (int j = 0; j < G; j++) {
    double p = std::exp(lp[j] - m) / s, sd = std::sqrt(p * (1 - p) / M);
    check(std::fabs(f[j] / (double)M - p) <= 6 * sd + 1.0 / M, "alpha frequency at grid point " + str(j) + " is far from its posterior weight");
  }
  done();
}

int main(int argc, char** argv) {
  return run(argc, argv, {
    {"C01", {[] { crp_history(false); }, domain_history}},
    {"C02", {[] { crp_history(true); }, crp_sample_freq}},
    {"C06crp", {alpha_freq, [] { crp_history(false); }}},
    {"C07", {math_case}},
  });
}
