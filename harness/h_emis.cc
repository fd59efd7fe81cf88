// C23 C24 C25: string alignment, error models, nearest representable values
#include "model.hh"
#include "emissions/identity.hh"
#include "emissions/string_alignment.hh"
using namespace md;
using namespace h;
using S = std::string;

static S rs(int hi, const S& abc) { S s; int n = ri(0, hi); for (int i = 0; i < n; i++) s += abc[ri(0, abc.size() - 1)]; return s; }
static S corrupt(const S& c, const S& abc) {
  S s;
  for (char x : c) { int k = ri(0, 5); if (k == 0) continue; if (k == 1) s += abc[ri(0, abc.size() - 1)]; s += k == 2 ? abc[ri(0, abc.size() - 1)] : x; }
  return s;
}

// ---------------------------------------------------------------- C23
// step costs: kind of step and the characters involved; always non-negative
struct Costs {
  double del, ins, sub, mat; bool bychar;
  double step(const AlignPiece& p) const {
    if (auto* d = std::get_if<Deletion>(&p)) return del + (bychar ? ((unsigned char)d->deleted_char % 3) * 0.25 : 0);
    if (auto* d = std::get_if<Insertion>(&p)) return ins + (bychar ? ((unsigned char)d->inserted_char % 5) * 0.5 : 0);
    if (auto* d = std::get_if<Substitution>(&p)) return sub + (bychar ? (((unsigned char)d->original + 2 * (unsigned char)d->replacement) % 4) * 0.125 : 0);
    return mat;
  }
};
static void enumscripts(const S& a, const S& b, size_t i, size_t j, double c, const Costs& k, std::vector<double>& out) {
  if (i == a.size() && j == b.size()) { out.push_back(c); return; }
  if (i < a.size()) enumscripts(a, b, i + 1, j, c + k.step(Deletion{a[i]}), k, out);
  if (j < b.size()) enumscripts(a, b, i, j + 1, c + k.step(Insertion{b[j]}), k, out);
  if (i < a.size() && j < b.size()) enumscripts(a, b, i + 1, j + 1, c + k.step(a[i] == b[j] ? AlignPiece(Match{a[i]}) : AlignPiece(Substitution{a[i], b[j]})), k, out);
}
static S show(const std::vector<AlignPiece>& p) {
  S s;
  for (auto& x : p) {
    if (auto* d = std::get_if<Deletion>(&x)) s += S("-") + d->deleted_char;
    else if (auto* d = std::get_if<Insertion>(&x)) s += S("+") + d->inserted_char;
    else if (auto* d = std::get_if<Substitution>(&x)) s += S("~") + d->original + d->replacement;
    else s += S("=") + std::get<Match>(x).c;
    s += " ";
  }
  return s;
}
static void valid(const StrAlignment& al, const S& a, const S& b) {
  S x, y;
  for (auto& p : al.align_pieces) {
    if (auto* d = std::get_if<Deletion>(&p)) x += d->deleted_char;
    else if (auto* d = std::get_if<Insertion>(&p)) y += d->inserted_char;
    else if (auto* d = std::get_if<Substitution>(&p)) { x += d->original; y += d->replacement; check(d->original != d->replacement, "a substitution replaces a character by itself: " + show(al.align_pieces)); }
    else { char c = std::get<Match>(p).c; x += c; y += c; }
  }
  check(x == a, "the edit script does not consume the first string: " + show(al.align_pieces));
  check(y == b, "the edit script does not produce the second string: " + show(al.align_pieces));
  check(al.s1_position == a.size() && al.s2_position == b.size(), "an alignment's end positions are wrong");
}
static void c23() {
  for (int rep = 0; rep < 20; rep++) {
    const char* al = pick<const char*>({"abc", "abc", "aAbB", "0 ~\xe9"});
    S a = rs(ri(0, 3) ? 4 : 6, al), b = ri(0, 2) ? corrupt(a, al) : rs(4, ri(0, 1) ? al : "abcd");
    if (b.size() > 5) b.resize(a.size() > 5 ? 6 : 5);
    if (ri(0, 9) == 0) { a = rs(12, "ab"); b = corrupt(a, "ab"); }
    bool ed = ri(0, 2) == 0;
    Costs c = ed ? Costs{1, 1, 1, 0, false} : Costs{ri(0, 8) * 0.25, ri(0, 8) * 0.25, ri(0, 8) * 0.25, ri(0, 4) * 0.125, ri(0, 1) == 1};
    int k = pick<int>({1, 1, 2, 3, 5, 10, 40});
    begin("topk_alignments", "k=" + str(k) + " <" + a + "> -> <" + b + "> " + (ed ? S("edit_distance") : "costs del " + str(c.del) + " ins " + str(c.ins) + " sub " + str(c.sub) + " match " + str(c.mat) + (c.bychar ? " by character" : "")));
    std::vector<StrAlignment> out;
    bool dup = ri(0, 5) == 0;
    StrAlignment old; old.cost = 77; old.s1_position = old.s2_position = 9;
    if (dup) out.push_back(old);
    if (ed) topk_alignments(k, a, b, edit_distance, &out);
    else topk_alignments(k, a, b, [&](const StrAlignment& x, double oc) { return oc + c.step(x.align_pieces.back()); }, &out);
    if (dup) { check(!out.empty() && out[0] == old, "alignments already in the list were changed"); out.erase(out.begin()); }
    check(!out.empty(), "no alignment was reported");
    check((int)out.size() <= k, str(out.size()) + " alignments were reported");
    std::set<S> seen;
    double last = -1;
    for (auto& al : out) {
      valid(al, a, b);
      check(seen.insert(show(al.align_pieces)).second, "an alignment is reported twice: " + show(al.align_pieces));
      double t = 0;
      for (auto& p : al.align_pieces) t += c.step(p);
      near(al.cost, t, "the cost of " + show(al.align_pieces) + " is not the sum of its steps' costs", 1e-9);
      check(al.cost >= last - 1e-12, "alignments are not listed cheapest first");
      last = al.cost;
    }
    // the minimum over all edit scripts, and the k cheapest for small strings
    std::vector<std::vector<double>> D(a.size() + 1, std::vector<double>(b.size() + 1, 1e18));
    D[0][0] = 0;
    for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) {
      if (i) D[i][j] = std::min(D[i][j], D[i - 1][j] + c.step(Deletion{a[i - 1]}));
      if (j) D[i][j] = std::min(D[i][j], D[i][j - 1] + c.step(Insertion{b[j - 1]}));
      if (i && j) D[i][j] = std::min(D[i][j], D[i - 1][j - 1] + c.step(a[i - 1] == b[j - 1] ? AlignPiece(Match{a[i - 1]}) : AlignPiece(Substitution{a[i - 1], b[j - 1]})));
    }
    near(out[0].cost, D[a.size()][b.size()], "the first alignment does not have the minimum cost", 1e-9);
    if (a.size() <= 5 && b.size() <= 5) {
      std::vector<double> all;
      enumscripts(a, b, 0, 0, 0, c, all);
      std::sort(all.begin(), all.end());
      check(out.size() == std::min<size_t>(k, all.size()), str(out.size()) + " alignments were reported although there are " + str(all.size()) + " edit scripts");
      for (size_t i = 0; i < out.size(); i++) near(out[i].cost, all[i], "alignment number " + str(i) + " is not the next cheapest", 1e-9);
    }
    done(a.size() + b.size() > 1);
  }
}

// ---------------------------------------------------------------- C24
// every statistic of an error model
static V est(const BitFlip& e) { return {e.N}; }
static V est(const GaussianEmission& e) { V v{e.N}; st(e.zmn, v); return v; }
static V est(const CategoricalEmission& e) { V v{e.N}; for (auto& d : e.emission_dists) st(d, v); return v; }
static V est(const SimpleStringEmission& e) { V v{e.N}; st(e.substitutions, v); st(e.insertions, v); st(e.deletions, v); return v; }
static V est(const BigramStringEmission& e) { V v{e.N}; for (auto& d : e.insertions) st(d, v); for (auto& d : e.substitutions) st(d, v); return v; }
template <class T> V est(const IdentityEmission<T>& e) { return {e.N}; }
static V est(const Sometimes<bool>& e) { V v{e.N}; st(e.bb, v); V w = est(*dynamic_cast<BitFlip*>(e.be)); v.insert(v.end(), w.begin(), w.end()); return v; }
static V est(const Sometimes<double>& e) { V v{e.N}; st(e.bb, v); V w = est(*dynamic_cast<GaussianEmission*>(e.be)); v.insert(v.end(), w.begin(), w.end()); return v; }
static V est(const Sometimes<int>& e) { V v{e.N}; st(e.bb, v); V w = est(*dynamic_cast<CategoricalEmission*>(e.be)); v.insert(v.end(), w.begin(), w.end()); return v; }
static V est(const Sometimes<S>& e) { V v{e.N}; st(e.bb, v); V w = est(*dynamic_cast<SimpleStringEmission*>(e.be)); v.insert(v.end(), w.begin(), w.end()); return v; }

// conj: logp is the change of the joint score; back: removal restores the statistics
template <class E, class P> void life(E& e, const std::vector<P>& xs, bool conj, bool back, bool weights) {
  std::vector<std::pair<V, P>> trail;
  double n = 0;
  for (auto& x : xs) {
    V b = est(e);
    double s0 = e.logp_score(), lp = e.logp(x);
    check(std::isfinite(lp), "logp of " + vs(x) + " is not finite");
    V b2 = est(e);
    check(nearv(b, b2, 1e-9), "asking for the probability of " + vs(x) + " changed the statistics");
    near(e.logp_score(), s0, "asking for the probability changed the joint score", 1e-8);
    double w = weights && ri(0, 3) == 0 ? ri(1, 3) : 1;
    if (conj) {
      op("incorporate " + vs(x) + (w != 1 ? " weight " + str(w) : ""));
      e.incorporate(x);
      near(e.logp_score() - s0, lp, "the predictive log probability of " + vs(x) + " is not the change of the joint score", 1e-5);
      for (int i = 1; i < (int)w; i++) e.incorporate(x);
      if (w != 1 && back) {
        V many = est(e);
        for (int i = 0; i < (int)w; i++) e.unincorporate(x);
        check(nearv(est(e), b, 1e-7), "removing " + vs(x) + " did not restore the statistics");
        e.incorporate(x, w);
        check(nearv(est(e), many, 1e-7), "weight " + str(w) + " is not " + str(w) + " times the observation");
        for (int i = 0; i < (int)w; i++) { e.unincorporate(x); }
        e.incorporate(x); w = 1;
      }
    } else { op("incorporate " + vs(x)); e.incorporate(x); w = 1; }
    n += w;
    near(e.N, n, "the error model's observation count is wrong", 1e-9);
    if (back && ri(0, 2) == 0) {
      V a = est(e);
      op("undo, redo");
      e.unincorporate(x);
      if (w == 1) check(nearv(est(e), b, 1e-7), "removing " + vs(x) + " gives statistics " + strv(est(e)).substr(0, 200) + " instead of " + strv(b).substr(0, 200));
      e.incorporate(x);
      check(nearv(est(e), a, 1e-7), "removing and absorbing " + vs(x) + " again changed the statistics");
    }
    if (w == 1) trail.push_back({b, x}); else trail.clear();
  }
  if (back) while (!trail.empty()) {
    op("unincorporate " + vs(trail.back().second));
    e.unincorporate(trail.back().second);
    check(nearv(est(e), trail.back().first, 1e-6), "removing " + vs(trail.back().second) + " gives statistics " + strv(est(e)).substr(0, 300) + " instead of " + strv(trail.back().first).substr(0, 300));
    trail.pop_back();
  }
}
template <class P> static std::vector<P> shuffled(std::vector<P> v) { std::shuffle(v.begin(), v.end(), rng); return v; }
// absorb, then remove in another order: nothing is left
template <class E, class P> void drain(E& e, const std::vector<P>& xs) {
  V b = est(e);
  for (auto& x : xs) e.incorporate(x);
  for (auto& x : shuffled(xs)) e.unincorporate(x);
  op("absorb all, remove in another order");
  check(nearv(est(e), b, 1e-6), "absorbing pairs and removing them in another order leaves statistics " + strv(est(e)).substr(0, 300));
}
template <class P> S pv(const std::vector<P>& v) { S s; for (auto&& x : v) s += vs(P(x)) + " "; return s; }
static void freq(int hits, int n, double p, const S& what) {
  double sd = std::sqrt(n * p * (1 - p)) + 1;
  if (std::fabs(hits - n * p) > 6 * sd) fail(what + ": " + str(hits) + " of " + str(n) + " draws, expected " + str(n * p));
}
template <class E, class T> T mode_ok(E& e, const std::vector<T>& c, std::mt19937* g) {
  std::map<T, int> cnt;
  int m = 0;
  for (auto x : c) m = std::max(m, ++cnt[x]);
  T r = e.propose_clean(c, g);
  check(cnt.count(r) && cnt[r] == m, "the proposed clean value " + vs(r) + " is not a most frequent dirty value of " + pv(c));
  return r;
}
template <class E, class F> void unchanged(E& e, const S& what, F f) {
  V a = est(e); double s = e.logp_score();
  op(what);
  f();
  check(nearv(est(e), a, 1e-12), what + " changed the statistics");
  near(e.logp_score(), s, what + " changed the joint score", 1e-10);
}
template <class E> void hypmove(E& e, std::mt19937* g) {
  V a = est(e);
  op("hyperparameter move");
  e.transition_hyperparameters(g);
  check(nearv(est(e), a, 1e-12), "a hyperparameter move changed the statistics");
}
template <class T> std::vector<std::pair<T, T>> rpairs(int n) {
  std::vector<std::pair<T, T>> v;
  for (int i = 0; i < n; i++) { T c = rval<T>(); v.push_back({c, ri(0, 1) ? c : rval<T>()}); }
  return v;
}
static void c24_bool() {
  std::mt19937 g(rng());
  begin("bit flip");
  BitFlip b;
  std::vector<std::pair<bool, bool>> xs;
  for (int i = 0; i < ri(1, 5); i++) { bool c = ri(0, 1); xs.push_back({c, !c}); }
  for (auto& x : xs) near(b.logp(x), 0, "flipping a bit has probability other than one");
  life(b, xs, true, true, true); drain(b, xs);
  unchanged(b, "sampling", [&] { for (int v = 0; v < 2; v++) check(b.sample_corrupted(v, &g) == !v, "a flipped bit is not flipped"); });
  unchanged(b, "proposing", [&] { std::vector<bool> c(ri(1, 4), ri(0, 1)); check(b.propose_clean(c, &g) == !c[0], "the proposed clean bit does not explain the dirty bit"); });
  done();
  begin("sometimes bit flip");
  Sometimes<bool> s(new BitFlip());
  auto ps = rpairs<bool>(ri(1, 8));
  life(s, ps, true, true, true); drain(s, ps);
  for (auto& x : ps) s.incorporate(x);
  hypmove(s, &g);
  double pf = 0;
  for (int c = 0; c < 2; c++) {
    double a = std::exp(s.logp({(bool)c, false})), d = std::exp(s.logp({(bool)c, true}));
    near(a + d, 1, "the probabilities of the two dirty values do not sum to one");
    pf = std::exp(s.logp({(bool)c, !c}));
  }
  double k = 0; for (auto& x : ps) k += x.first != x.second;
  near(pf, (s.bb.alpha + k) / (s.bb.alpha + s.bb.beta + ps.size()), "the probability of corruption does not match the absorbed pairs");
  unchanged(s, "sampling", [&] { int n = 0; for (int i = 0; i < 300; i++) n += s.sample_corrupted(true, &g) == false; freq(n, 300, pf, "sampling corrupted bits"); });
  unchanged(s, "proposing", [&] { std::vector<bool> c; for (int i = 0; i < ri(1, 6); i++) c.push_back(ri(0, 1)); mode_ok(s, c, &g); });
  done();
}
static void c24_double() {
  std::mt19937 g(rng());
  begin("gaussian error");
  GaussianEmission e;
  auto xs = rpairs<double>(ri(1, 8));
  life(e, xs, true, true, true); drain(e, xs);
  for (auto& x : xs) e.incorporate(x);
  hypmove(e, &g);
  // only the difference matters
  for (auto& x : xs) { double d = ri(-8, 8) * 0.5; near(e.logp(x), e.logp({x.first + d, x.second + d}), "the error's probability depends on more than dirty minus clean", 1e-9); near(e.logp(x), e.zmn.logp(x.second - x.first), "the error's probability is not that of the difference", 1e-9); }
  unchanged(e, "proposing", [&] { V c; double t = 0; for (int i = 0; i < ri(1, 6); i++) { c.push_back(rval<double>()); t += c.back(); } near(e.propose_clean(c, &g), t / c.size(), "the proposed clean value is not the mean of the dirty values", 1e-9); });
  unchanged(e, "sampling", [&] { double c = ri(-50, 50) * 1000; int above = 0; for (int i = 0; i < 300; i++) { double x = e.sample_corrupted(c, &g); check(std::isfinite(x), "a sampled error is not finite"); above += x > c; } freq(above, 300, 0.5, "sampled errors above the clean value"); });
  done();
  begin("sometimes gaussian error");
  Sometimes<double> s(new GaussianEmission());
  auto ps = rpairs<double>(ri(1, 8));
  life(s, ps, true, true, true); drain(s, ps);
  for (auto& x : ps) s.incorporate(x);
  hypmove(s, &g);
  double k = 0; for (auto& x : ps) k += x.first != x.second;
  double pc = (s.bb.alpha + k) / (s.bb.alpha + s.bb.beta + ps.size());
  near(s.logp({1.5, 1.5}), std::log(1 - pc), "the probability of an uncorrupted value is wrong");
  near(s.logp({1.5, 2.5}), std::log(pc) + s.be->logp({1.5, 2.5}), "the probability of a corrupted value is wrong");
  unchanged(s, "sampling", [&] { int n = 0; for (int i = 0; i < 300; i++) n += s.sample_corrupted(2.25, &g) != 2.25; freq(n, 300, pc, "sampling corrupted values"); });
  unchanged(s, "proposing", [&] { V c; for (int i = 0; i < ri(1, 6); i++) c.push_back(ri(0, 2)); mode_ok(s, c, &g); });
  done();
}
static void c24_int() {
  std::mt19937 g(rng());
  int K = ri(2, 4);
  begin("categorical error", str(K) + " states");
  auto rp = [&](int n) { std::vector<std::pair<int, int>> v; for (int i = 0; i < n; i++) { int c = ri(0, K - 1); v.push_back({c, ri(0, 1) ? c : ri(0, K - 1)}); } return v; };
  CategoricalEmission e(K);
  auto xs = rp(ri(1, 9));
  life(e, xs, true, true, true); drain(e, xs);
  for (auto& x : xs) e.incorporate(x);
  hypmove(e, &g);
  for (int c = 0; c < K; c++) {
    double t = 0, n = 0;
    for (auto& x : xs) n += x.first == c;
    for (int d = 0; d < K; d++) {
      double m = 0, al = e.emission_dists[c].alpha;
      for (auto& x : xs) m += x.first == c && x.second == d;
      double p = std::exp(e.logp({c, d}));
      near(p, (m + al) / (n + K * al), "the probability of dirty " + str(d) + " given clean " + str(c) + " does not match the absorbed pairs");
      t += p;
    }
    near(t, 1, "the probabilities of the dirty states given clean " + str(c) + " do not sum to one");
  }
  unchanged(e, "sampling", [&] { int c = ri(0, K - 1), d = ri(0, K - 1), n = 0; for (int i = 0; i < 300; i++) { int x = e.sample_corrupted(c, &g); check(x >= 0 && x < K, "a sampled state is out of range"); n += x == d; } freq(n, 300, std::exp(e.logp({c, d})), "sampling dirty " + str(d) + " for clean " + str(c)); });
  unchanged(e, "proposing", [&] {
    std::vector<int> c; for (int i = 0; i < ri(1, 5); i++) c.push_back(ri(0, K - 1));
    int r = e.propose_clean(c, &g);
    check(r >= 0 && r < K, "the proposed clean state is out of range");
    auto lik = [&](int s) { double t = 0; for (int d : c) t += e.logp({s, d}); return t; };
    for (int s = 0; s < K; s++) check(lik(s) <= lik(r) + 1e-9, "the proposed clean state " + str(r) + " explains " + pv(c) + "worse than " + str(s));
  });
  done();
  begin("sometimes categorical error", str(K) + " states");
  Sometimes<int> s(new CategoricalEmission(K), true);
  auto ps = rp(ri(1, 9));
  life(s, ps, false, true, false); drain(s, ps);
  for (auto& x : ps) s.incorporate(x);
  hypmove(s, &g);
  near(s.bb.N, ps.size(), "the corruption coin did not absorb every pair once", 1e-9);
  near(s.be->N, s.bb.s, "the corruption coin and the error model disagree on the corrupted weight", 1e-9);
  double pc = std::exp(s.bb.logp(true));
  for (int c = 0; c < K; c++) {
    double t = 0;
    for (int d = 0; d < K; d++) {
      double p = std::exp(s.logp({c, d}));
      near(p, (c == d ? 1 - pc : 0) + pc * std::exp(s.be->logp({c, d})), "the probability of dirty " + str(d) + " given clean " + str(c) + " does not account for both explanations");
      t += p;
    }
    near(t, 1, "the probabilities of the dirty states given clean " + str(c) + " do not sum to one");
  }
  unchanged(s, "sampling", [&] { int c = ri(0, K - 1), d = ri(0, K - 1), n = 0; for (int i = 0; i < 300; i++) n += s.sample_corrupted(c, &g) == d; freq(n, 300, std::exp(s.logp({c, d})), "sampling dirty " + str(d) + " for clean " + str(c)); });
  unchanged(s, "proposing", [&] { std::vector<int> c; for (int i = 0; i < ri(1, 6); i++) c.push_back(ri(0, K - 1)); mode_ok(s, c, &g); });
  done();
  begin("identity error");
  IdentityEmission<int> id;
  std::vector<std::pair<int, int>> same; for (auto& x : xs) same.push_back({x.first, x.first});
  life(id, same, true, true, true); drain(id, same);
  for (auto& x : same) near(id.logp(x), 0, "an unchanged value has probability other than one");
  unchanged(id, "sampling", [&] { check(id.sample_corrupted(2, &g) == 2, "the identity error changes the value"); check(id.propose_clean({1, 2}, &g) == 1, "the proposed clean value is not the dirty value"); });
  done();
}
static std::vector<std::pair<S, S>> spairs(int n, const S& abc) {
  std::vector<std::pair<S, S>> v;
  for (int i = 0; i < n; i++) { S c = rs(5, abc); v.push_back({c, ri(0, 2) == 0 ? c : ri(0, 3) ? corrupt(c, abc) : rs(4, abc)}); }
  return v;
}
static void c24_simple() {
  std::mt19937 g(rng());
  begin("simple string error");
  SimpleStringEmission e;
  auto xs = spairs(ri(1, 5), "abc~ ");
  life(e, xs, true, true, true); drain(e, xs);
  // how many of each event a pair may be explained by
  for (auto& x : xs) {
    SimpleStringEmission f;
    f.incorporate(x);
    const S &c = x.first, &d = x.second;
    near(f.deletions.s - f.insertions.s, (double)c.size() - (double)d.size(), "absorbing " + vs(x) + " counts deletions and insertions that do not explain the lengths", 1e-9);
    check(f.deletions.N <= c.size() + 1e-9 && f.deletions.N >= 0, "absorbing " + vs(x) + " decides about more deletions than there are clean characters");
    check(f.substitutions.N <= std::min(c.size(), d.size()) + 1e-9, "absorbing " + vs(x) + " counts more substitution decisions than characters");
    check(f.insertions.s >= 0 && f.deletions.s >= 0 && f.substitutions.s >= 0, "negative counts");
    near(f.substitutions.N + f.deletions.s, c.size(), "absorbing " + vs(x) + " does not account for every clean character once", 1e-9);
    near(f.substitutions.N + f.insertions.s, d.size(), "absorbing " + vs(x) + " does not account for every dirty character once", 1e-9);
    if (c == d) check(f.substitutions.s == 0 && f.insertions.s == 0 && f.deletions.s == 0, "an unchanged string counts as corrupted");
  }
  for (auto& x : xs) e.incorporate(x);
  hypmove(e, &g);
  unchanged(e, "sampling", [&] {
    SimpleStringEmission q;   // rarely corrupts
    for (int i = 0; i < 40; i++) q.incorporate({"abcdefgh", "abcdefgh"});
    int same = 0;
    for (int i = 0; i < 60; i++) { S s = q.sample_corrupted("abc", &g); for (unsigned char c : s) check(c >= ' ' && c <= '~', "a sampled character is outside the model's range"); same += s == "abc"; }
    check(same >= 30, "a model that saw no corruption corrupts often");
    if (std::exp(e.insertions.logp(true)) > 0.9) return;   // would insert for very long
    S s = e.sample_corrupted("ab", &g);
    for (unsigned char c : s) check(c >= ' ' && c <= '~', "a sampled character is outside the model's range");
  });
  unchanged(e, "proposing", [&] {
    std::vector<S> c; S base = rs(5, "abc"); for (int i = 0; i < ri(1, 5); i++) c.push_back(ri(0, 1) ? base : corrupt(base, "abc"));
    S r = e.propose_clean(c, &g);
    op("dirty " + pv(c) + "proposed <" + r + ">");
    auto votes = [&](size_t i, char x) { int n = 0; for (auto& s : c) n += (i < s.size() ? s[i] : '\0') == x; return n; };
    for (size_t i = 0; i <= r.size(); i++) {
      char x = i < r.size() ? r[i] : '\0';
      int m = votes(i, x);
      check(m > 0, "the proposed clean string has a character no dirty string has there");
      for (auto& s : c) check(votes(i, i < s.size() ? s[i] : '\0') <= m, "the proposed clean string does not follow the vote at position " + str(i));
    }
  });
  done();
  begin("sometimes simple string error");
  Sometimes<S> s(new SimpleStringEmission());
  auto ps = spairs(ri(1, 5), "ab");
  life(s, ps, true, true, true); drain(s, ps);
  unchanged(s, "proposing", [&] { std::vector<S> c; for (int i = 0; i < ri(1, 6); i++) c.push_back(rs(1, "ab")); mode_ok(s, c, &g); });
  done();
}
static void c24_bigram() {
  static int turn = 0;
  if (turn++ % 4) return;   // costly
  std::mt19937 g(rng());
  begin("n-gram string error");
  BigramStringEmission e;
  check(e.get_index(S("")) == 0, "the empty context has another index than zero");
  for (char c = ' '; c <= '~'; c++) check(e.category_to_char(e.get_index(c)) == S(1, c) && e.get_index(S(1, c)) == e.get_index(c), "characters and categories do not correspond");
  check(e.category_to_char(0) == "", "category zero is a character");
  auto idx = [](char c) { return (size_t)(c - ' ') + 1; };
  auto xs = spairs(ri(1, 3), "ab~ ");
  for (auto& x : xs) {
    V b = est(e);
    double s0 = e.logp_score(), lp = e.logp(x);
    check(nearv(b, est(e), 1e-12), "asking for the probability of " + vs(x) + " changed the statistics");
    // what absorbing this pair must add: its two cheapest scripts in proportion to their probabilities
    auto cost = [&](const StrAlignment& a, double oc) {
      size_t ctx = 0;
      for (size_t i = 0; i + 1 < a.align_pieces.size(); i++) {
        auto& p = a.align_pieces[i];
        if (auto* d = std::get_if<Deletion>(&p)) ctx = idx(d->deleted_char);
        if (auto* d = std::get_if<Substitution>(&p)) ctx = idx(d->original);
        if (auto* d = std::get_if<Match>(&p)) ctx = idx(d->c);
      }
      auto& p = a.align_pieces.back();
      if (auto* d = std::get_if<Insertion>(&p)) return oc - e.insertions[ctx].logp(idx(d->inserted_char));
      double r = oc - e.insertions[ctx].logp(0);
      if (auto* d = std::get_if<Deletion>(&p)) return r - e.substitutions[idx(d->deleted_char)].logp(0);
      if (auto* d = std::get_if<Substitution>(&p)) return r - e.substitutions[idx(d->original)].logp(idx(d->replacement));
      char c = std::get<Match>(p).c;
      return r - e.substitutions[idx(c)].logp(idx(c));
    };
    auto co = [&](const StrAlignment& a, double oc) { double v = cost(a, oc); near(e.log_prob_distance(a, oc), v, "the cost of " + show(a.align_pieces) + " is not its negative log probability", 1e-9); return v; };
    std::vector<StrAlignment> al;
    topk_alignments(4, x.first, x.second, co, &al);
    // ties for the second place: which script is used is not determined
    bool tie = al.size() > 2 && std::fabs(al[1].cost - al[2].cost) < 1e-9;
    if (al.size() > 2) al.resize(2);
    V exi(e.insertions.size() * e.insertions.size()), exs(exi.size());
    size_t n = e.insertions.size();
    double z = 0; for (auto& a : al) z += std::exp(al[0].cost - a.cost);
    for (auto& a : al) {
      double w = std::exp(al[0].cost - a.cost) / z;
      size_t ctx = 0;
      for (auto& p : a.align_pieces) {
        if (auto* d = std::get_if<Insertion>(&p)) { exi[ctx * n + idx(d->inserted_char)] += w; continue; }
        exi[ctx * n] += w;
        if (auto* d = std::get_if<Deletion>(&p)) { ctx = idx(d->deleted_char); exs[ctx * n] += w; }
        if (auto* d = std::get_if<Substitution>(&p)) { ctx = idx(d->original); exs[ctx * n + idx(d->replacement)] += w; }
        if (auto* d = std::get_if<Match>(&p)) { ctx = idx(d->c); exs[ctx * n + ctx] += w; }
      }
    }
    V i0, s0v; for (auto& d : e.insertions) i0.insert(i0.end(), d.counts.begin(), d.counts.end()); for (auto& d : e.substitutions) s0v.insert(s0v.end(), d.counts.begin(), d.counts.end());
    double n0 = e.N;
    op("incorporate " + vs(x));
    e.incorporate(x);
    near(e.N, n0 + 1, "the observation count is wrong", 1e-9);
    near(e.logp_score() - s0, lp, "the predictive log probability of " + vs(x) + " is not the change of the joint score", 1e-5);
    V i1, s1; for (auto& d : e.insertions) i1.insert(i1.end(), d.counts.begin(), d.counts.end()); for (auto& d : e.substitutions) s1.insert(s1.end(), d.counts.begin(), d.counts.end());
    if (!tie) for (size_t k = 0; k < exi.size(); k++) {
      near(i1[k] - i0[k], exi[k], "absorbing " + vs(x) + " changed insertion count " + str(k / n) + "/" + str(k % n) + " wrongly", 1e-6);
      near(s1[k] - s0v[k], exs[k], "absorbing " + vs(x) + " changed substitution count " + str(k / n) + "/" + str(k % n) + " wrongly", 1e-6);
    }
    for (size_t c = 1; c < n; c++) { double d = 0; for (size_t k = 0; k < n; k++) d += s1[c * n + k] - s0v[c * n + k]; near(d, std::count(x.first.begin(), x.first.end(), (char)(' ' + c - 1)), "absorbing " + vs(x) + " does not account for each clean character once", 1e-6); }
  }
  unchanged(e, "sampling", [&] { S s = e.sample_corrupted("ab", &g); for (unsigned char c : s) check(c >= ' ' && c <= '~', "a sampled character is outside the model's range"); });
  unchanged(e, "proposing", [&] {
    std::vector<S> c; S base = rs(5, "abc"); int m = ri(1, 5); bool same = ri(0, 2) == 0;
    for (int i = 0; i < m; i++) c.push_back(same || ri(0, 1) ? base : corrupt(base, "abc"));
    op(pv(c));
    S r = e.propose_clean(c, &g);
    if (same || m == 1) check(r == c[0], "the proposed clean string <" + r + "> differs although all dirty strings agree");
    for (char x : r) { bool f = false; for (auto& s : c) f |= s.find(x) != S::npos; check(f, "the proposed clean string has a character no dirty string has"); }
    // majority: one outlier among many copies does not win
    if (base.size() > 1) { std::vector<S> d(4, base); d.push_back("zz"); check(e.propose_clean(d, &g) == base, "an outlier outvotes four equal dirty strings"); }
  });
  done();
}

// ---------------------------------------------------------------- C25
template <class D, class T> T nearest_ok(const D& d, const T& x, const S& show) {
  V a; 
  T n = d.nearest(x);
  double lp = d.logp(n);
  check(!std::isnan(lp) && lp > -1e300, "the value nearest to " + show + " has probability zero: " + vs(n));
  check(d.nearest(n) == n, "rounding " + show + " twice differs from rounding it once");
  return n;
}
static int lev(const S& a, const S& b) {
  std::vector<int> p(b.size() + 1);
  for (size_t j = 0; j <= b.size(); j++) p[j] = j;
  for (size_t i = 1; i <= a.size(); i++) { int o = p[0]; p[0] = i; for (size_t j = 1; j <= b.size(); j++) { int t = p[j]; p[j] = std::min({p[j] + 1, p[j - 1] + 1, o + (a[i - 1] != b[j - 1])}); o = t; } }
  return p[b.size()];
}
static void c25() {
  std::mt19937 g(rng());
  {
    int K = ri(1, 5);
    DirichletCategorical d(K);
    for (int i = 0; i < ri(0, 4); i++) d.incorporate(ri(0, K - 1));
    for (int i = 0; i < 8; i++) {
      int x = pick<int>({ri(-3, K + 3), -1, 0, K - 1, K, 1 << 30, -(1 << 30)});
      begin("categorical", str(K) + " states, value " + str(x));
      int n = nearest_ok(d, x, str(x));
      check(n >= 0 && n < K, "the nearest state " + str(n) + " is out of range");
      if (x >= 0 && x < K) check(n == x, "a representable state is changed to " + str(n));
      else check(n == (x < 0 ? 0 : K - 1), "state " + str(n) + " is not the one closest to " + str(x));
      done();
    }
  }
  {
    std::vector<S> L;
    for (int i = 0; i < ri(1, 5); i++) { S s = rs(4, "abc"); if (!std::count(L.begin(), L.end(), s)) L.push_back(s); }
    StringCat d(L);
    for (int i = 0; i < ri(0, 4); i++) d.incorporate(pick(L));
    for (int i = 0; i < 8; i++) {
      S x = ri(0, 2) == 0 ? pick(L) : ri(0, 1) ? corrupt(pick(L), "abcd") : rs(5, "abcd");
      begin("fixed list", strv(L) + " value <" + x + ">");
      S n = nearest_ok(d, x, "<" + x + ">");
      check(std::count(L.begin(), L.end(), n), "<" + n + "> is not in the list");
      if (std::count(L.begin(), L.end(), x)) check(n == x, "a listed string is changed to <" + n + ">");
      for (auto& s : L) check(lev(n, x) <= lev(s, x), "<" + s + "> is nearer than <" + n + ">");
      done();
    }
  }
  {
    int ml = ri(0, 5);
    char lo = ' ', hi = '~';
    if (ri(0, 1)) { lo = 'b'; hi = (char)('b' + ri(0, 3)); }
    Bigram d(ml, lo, hi);
    for (int i = 0; i < ri(0, 3); i++) { S s = rs(ml ? std::min(ml, 4) : 4, S(1, lo) + hi); d.incorporate(s); }
    for (int i = 0; i < 8; i++) {
      S x = ri(0, 1) ? rs(7, S("abcdefz~ \x1f\x7f\n") + lo + hi) : rs(ml ? ml : 6, S(1, lo) + hi);
      begin("n-gram", "max_length " + str(ml) + " range " + lo + hi + " value <" + x + ">");
      S n = nearest_ok(d, x, "<" + x + ">");
      bool ok = !ml || (int)x.size() <= ml;
      for (char c : x) ok &= c >= lo && c <= hi;
      if (ok) check(n == x, "a representable string is changed to <" + n + ">");
      check(!ml || (int)n.size() <= ml, "the nearest string is too long");
      for (char c : n) check(c >= lo && c <= hi, "the nearest string has a character out of range");
      // nothing representable is dropped before the length limit
      S e; for (char c : x) if (c >= lo && c <= hi && (!ml || (int)e.size() < ml)) e += c;
      check(n.size() == e.size(), "the nearest string <" + n + "> drops representable characters");
      done();
    }
    StringNat sn(ml ? ml : 20);
    for (int i = 0; i < 8; i++) {
      S x = rs(7, "0123456789a.-/:");
      begin("natural number", "max_length " + str(sn.max_length) + " value <" + x + ">");
      S n = nearest_ok(sn, x, "<" + x + ">");
      S e; for (char c : x) if (c >= '0' && c <= '9' && e.size() < sn.max_length) e += c;
      check(n == e, "the nearest number is <" + n + "> instead of <" + e + ">");
      done();
    }
  }
  {
    BetaBernoulli b; Normal n; Skellam k; k.init_theta(&g);
    begin("numbers");
    for (int i = 0; i < 6; i++) {
      check(nearest_ok(b, (bool)(i % 2), str(i % 2)) == (bool)(i % 2), "a bit is changed");
      double x = rval<double>();
      check(nearest_ok(n, x, str(x)) == x, "a representable number is changed");
      int z = ri(-4, 4);
      check(nearest_ok(k, z, str(z)) == z, "a representable integer is changed");
    }
    done();
  }
  {
    // through a relation: the block of the items decides; items not yet seen use a fresh block
    begin("relation");
    Domain D("D");
    int K = ri(2, 4);
    DistributionSpec sp("categorical", {{"k", str(K)}});
    CleanRelation<int> R("R", sp, {&D});
    R.incorporate(&g, {0}, 0);
    size_t nc = R.clusters.size();
    double sc = R.logp_score();
    for (int it = 0; it < 2; it++) for (int x = -2; x < K + 2; x++) {
      if (it == 1 && !D.items.contains(1)) D.incorporate(&g, 1);
      int n = R.nearest(&g, x, {it});
      check(n == std::min(std::max(x, 0), K - 1), "the relation rounds " + str(x) + " to " + str(n));
      check(R.clusters.size() == nc && R.logp_score() == sc, "rounding a value changed the relation");
    }
    done();
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, {
#if !defined(ONLY) || defined(ONLY_C23)
    {"C23", {c23}},
#endif
#if !defined(ONLY) || defined(ONLY_C24)
    {"C24", {c24_bool, c24_double, c24_int, c24_simple, c24_bigram}},
#endif
#if !defined(ONLY) || defined(ONLY_C25)
    {"C25", {c25}},
#endif
  });
}
