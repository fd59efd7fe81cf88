// Shared by the relation and model harnesses: reading the state of blocks, and rebuilding blocks from scratch.
#pragma once
#include "h.hh"
#include <memory>
#include "clean_relation.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/get_distribution.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "noisy_relation.hh"
#include "transition_latent_value.hh"

namespace md {
using V = std::vector<double>;
using I = std::vector<int>;
using h::check;
using h::near;

// ---- statistics and hyperparameters of the concrete models
inline void st(const BetaBernoulli& d, V& v) { v.push_back(d.N); v.push_back(d.s); }
inline void hy(const BetaBernoulli& d, V& v) { v.push_back(d.alpha); v.push_back(d.beta); }
inline void cp(BetaBernoulli& a, const BetaBernoulli& b) { a.alpha = b.alpha; a.beta = b.beta; }
inline void st(const DirichletCategorical& d, V& v) { v.push_back(d.N); for (auto c : d.counts) v.push_back(c); }
inline void hy(const DirichletCategorical& d, V& v) { v.push_back(d.alpha); }
inline void cp(DirichletCategorical& a, const DirichletCategorical& b) { a.alpha = b.alpha; }
inline void st(const Normal& d, V& v) { v.push_back(d.N); v.push_back(d.N ? d.mean : 0); v.push_back(d.N ? d.var : 0); }
inline void hy(const Normal& d, V& v) { v.push_back(d.r); v.push_back(d.v); v.push_back(d.m); v.push_back(d.s); }
inline void cp(Normal& a, const Normal& b) { a.r = b.r; a.v = b.v; a.m = b.m; a.s = b.s; }
inline void st(const ZeroMeanNormal& d, V& v) { v.push_back(d.N); v.push_back(d.N ? d.var : 0); }
inline void hy(const ZeroMeanNormal& d, V& v) { v.push_back(d.alpha); v.push_back(d.beta); }
inline void cp(ZeroMeanNormal& a, const ZeroMeanNormal& b) { a.alpha = b.alpha; a.beta = b.beta; }
inline void st(const Bigram& d, V& v) { v.push_back(d.N); double s = 0, q = 0; int k = 1; for (auto& t : d.transition_dists) { V w; st(t, w); for (size_t i = 0; i < w.size(); i++) { s += w[i]; q += w[i] * ((k * 31 + (int)i * 7) % 101); } k++; } v.push_back(s); v.push_back(q); }
inline void cp(Bigram& a, const Bigram& b) { a.alpha = b.alpha; for (size_t i = 0; i < a.transition_dists.size(); i++) a.transition_dists[i].alpha = b.transition_dists[i].alpha; }
inline void hy(const Bigram& d, V& v) { v.push_back(d.alpha); }

template <class T> struct Probe;   // values used to compare two models of the same value type
template <> struct Probe<bool> { static std::vector<bool> vs() { return {false, true}; } };
template <> struct Probe<int> { static std::vector<int> vs() { return {0, 1, 2}; } };
template <> struct Probe<double> { static std::vector<double> vs() { return {-2, 0, 1.5}; } };
template <> struct Probe<std::string> { static std::vector<std::string> vs() { return {"", "ab", "zz"}; } };

// what of a block's state is a function of the absorbed multiset (comparable to a rebuild)
template <class T>
V stats(Distribution<T>* d) {
  V v{d->N};
  if constexpr (std::is_same_v<T, bool>) { if (auto* p = dynamic_cast<BetaBernoulli*>(d)) st(*p, v); }
  if constexpr (std::is_same_v<T, int>) { if (auto* p = dynamic_cast<DirichletCategorical*>(d)) st(*p, v); }
  if constexpr (std::is_same_v<T, double>) { if (auto* p = dynamic_cast<Normal*>(d)) st(*p, v); }
  if constexpr (std::is_same_v<T, std::string>) { if (auto* p = dynamic_cast<Bigram*>(d)) st(*p, v); }
  using PB = std::pair<bool, bool>; using PD = std::pair<double, double>; using PS = std::pair<std::string, std::string>;
  if constexpr (std::is_same_v<T, PB>) { if (auto* p = dynamic_cast<Sometimes<bool>*>(d)) { st(p->bb, v); v.push_back(p->be->N); } }
  if constexpr (std::is_same_v<T, PD>) {
    if (auto* p = dynamic_cast<GaussianEmission*>(d)) st(p->zmn, v);
    if (auto* p = dynamic_cast<Sometimes<double>*>(d)) { st(p->bb, v); v.push_back(p->be->N); if (auto* g = dynamic_cast<GaussianEmission*>(p->be)) st(g->zmn, v); }
  }
  if constexpr (std::is_same_v<T, PS>) { if (auto* p = dynamic_cast<SimpleStringEmission*>(d)) { st(p->substitutions, v); st(p->insertions, v); st(p->deletions, v); } }
  return v;
}
template <class T>
V hypers(Distribution<T>* d) {
  V v;
  if constexpr (std::is_same_v<T, bool>) { if (auto* p = dynamic_cast<BetaBernoulli*>(d)) hy(*p, v); }
  if constexpr (std::is_same_v<T, int>) { if (auto* p = dynamic_cast<DirichletCategorical*>(d)) hy(*p, v); }
  if constexpr (std::is_same_v<T, double>) { if (auto* p = dynamic_cast<Normal*>(d)) hy(*p, v); }
  if constexpr (std::is_same_v<T, std::string>) { if (auto* p = dynamic_cast<Bigram*>(d)) hy(*p, v); }
  using PB = std::pair<bool, bool>; using PD = std::pair<double, double>; using PS = std::pair<std::string, std::string>;
  if constexpr (std::is_same_v<T, PB>) { if (auto* p = dynamic_cast<Sometimes<bool>*>(d)) hy(p->bb, v); }
  if constexpr (std::is_same_v<T, PD>) {
    if (auto* p = dynamic_cast<GaussianEmission*>(d)) hy(p->zmn, v);
    if (auto* p = dynamic_cast<Sometimes<double>*>(d)) { hy(p->bb, v); if (auto* g = dynamic_cast<GaussianEmission*>(p->be)) hy(g->zmn, v); }
  }
  if constexpr (std::is_same_v<T, PS>) { if (auto* p = dynamic_cast<SimpleStringEmission*>(d)) { hy(p->substitutions, v); hy(p->insertions, v); hy(p->deletions, v); } }
  return v;
}
template <class T>
void copyhyp(Distribution<T>* a, Distribution<T>* b) {
  if constexpr (std::is_same_v<T, std::string>) { if (auto* p = dynamic_cast<Bigram*>(a)) cp(*p, *dynamic_cast<Bigram*>(b)); }
  if constexpr (std::is_same_v<T, bool>) { if (auto* p = dynamic_cast<BetaBernoulli*>(a)) cp(*p, *dynamic_cast<BetaBernoulli*>(b)); }
  if constexpr (std::is_same_v<T, int>) { if (auto* p = dynamic_cast<DirichletCategorical*>(a)) cp(*p, *dynamic_cast<DirichletCategorical*>(b)); }
  if constexpr (std::is_same_v<T, double>) { if (auto* p = dynamic_cast<Normal*>(a)) cp(*p, *dynamic_cast<Normal*>(b)); }
  using PB = std::pair<bool, bool>; using PD = std::pair<double, double>; using PS = std::pair<std::string, std::string>;
  if constexpr (std::is_same_v<T, PB>) { if (auto* p = dynamic_cast<Sometimes<bool>*>(a)) cp(p->bb, dynamic_cast<Sometimes<bool>*>(b)->bb); }
  if constexpr (std::is_same_v<T, PD>) {
    if (auto* p = dynamic_cast<GaussianEmission*>(a)) cp(p->zmn, dynamic_cast<GaussianEmission*>(b)->zmn);
    if (auto* p = dynamic_cast<Sometimes<double>*>(a)) { auto* q = dynamic_cast<Sometimes<double>*>(b); cp(p->bb, q->bb); cp(dynamic_cast<GaussianEmission*>(p->be)->zmn, dynamic_cast<GaussianEmission*>(q->be)->zmn); }
  }
  if constexpr (std::is_same_v<T, PS>) { if (auto* p = dynamic_cast<SimpleStringEmission*>(a)) { auto* q = dynamic_cast<SimpleStringEmission*>(b); cp(p->substitutions, q->substitutions); cp(p->insertions, q->insertions); cp(p->deletions, q->deletions); } }
}
inline bool nearv(const V& a, const V& b, double tol = 1e-6) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || std::fabs(a[i] - b[i]) <= tol * (1 + std::max(std::fabs(a[i]), std::fabs(b[i]))))) return false;
  return true;
}

template <class T> std::string vs(const T& x) { return h::str(x); }
template <> inline std::string vs<std::string>(const std::string& x) { return "\"" + x + "\""; }
template <class T> std::string vs(const std::pair<T, T>& x) { return "(" + vs(x.first) + "," + vs(x.second) + ")"; }

template <class T> T rval();
template <> inline bool rval<bool>() { return h::ri(0, 1); }
template <> inline int rval<int>() { return h::ri(0, 2); }
template <> inline double rval<double>() { return h::pick<double>({(double)h::ri(-3, 3), h::rd(-4, 4), h::ri(-3, 3) * 0.5}); }
template <> inline std::string rval<std::string>() { std::string s; int n = h::ri(0, 4); for (int i = 0; i < n; i++) s += (char)('a' + h::ri(0, 3)); return s; }

template <class T> std::string dspec();
template <> inline std::string dspec<bool>() { return "bernoulli"; }
template <> inline std::string dspec<int>() { return "categorical(k=3)"; }
template <> inline std::string dspec<double>() { return "normal"; }
template <> inline std::string dspec<std::string>() { return "bigram"; }
template <class T> std::string espec();
template <> inline std::string espec<bool>() { return "sometimes_bitflip"; }
template <> inline std::string espec<int>() { return "sometimes_categorical(k=3)"; }
template <> inline std::string espec<double>() { return h::pick<std::string>({"gaussian", "sometimes_gaussian"}); }
template <> inline std::string espec<std::string>() { return "simple_string"; }

inline DistributionSpec mkd(const std::string& s) { if (s.rfind("categorical", 0) == 0) return DistributionSpec("categorical", {{"k", "3"}}); return DistributionSpec(s); }
inline EmissionSpec mke(const std::string& s) { if (s.rfind("sometimes_categorical", 0) == 0) return EmissionSpec("sometimes_categorical", {{"k", "3"}}); return EmissionSpec(s); }

template <class T> using Data = std::map<I, T>;
template <class R> auto getdata(R* r) { using T = typename R::ValueType; Data<T> m; for (auto& [k, v] : r->get_data()) m[k] = v; return m; }

// ---- full check of a clean relation against a reference data map
template <class T>
void checkrel(const CleanRelation<T>& r, const Data<T>& ref, const std::string& when, bool blockstats = true) {
  check(r.data.size() == ref.size(), when + ": the relation stores " + h::str(r.data.size()) + " observations instead of " + h::str(ref.size()));
  for (auto& [k, v] : ref) {
    auto it = r.data.find(k);
    check(it != r.data.end(), when + ": observation " + h::strv(k) + " is not stored");
    check(it->second == v, when + ": observation " + h::strv(k) + " is stored with another value");
  }
  // reverse lookup
  std::map<std::string, std::map<int, std::set<I>>> ex;
  for (auto* d : r.domains) ex[d->name];
  for (auto& [k, v] : ref) for (size_t i = 0; i < r.domains.size(); i++) ex[r.domains[i]->name][k[i]].insert(k);
  check(r.data_r.size() == ex.size(), when + ": the lookup's domains are wrong");
  for (auto& [d, m] : ex) {
    auto it = r.data_r.find(d);
    check(it != r.data_r.end(), when + ": domain missing in the lookup");
    check(it->second.size() == m.size(), when + ": the lookup of domain " + d + " lists " + h::str(it->second.size()) + " entities instead of " + h::str(m.size()));
    for (auto& [e, s] : m) {
      auto jt = it->second.find(e);
      check(jt != it->second.end(), when + ": entity missing in the lookup");
      check(jt->second.size() == s.size(), when + ": the lookup of entity " + h::str(e) + " in " + d + " lists " + h::str(jt->second.size()) + " observations instead of " + h::str(s.size()));
      for (auto& k : s) check(jt->second.contains(k), when + ": the lookup misses an observation");
    }
  }
  // blocks
  std::map<I, std::vector<T>> blocks;
  for (auto& [k, v] : ref) {
    I z;
    for (size_t i = 0; i < k.size(); i++) { check(r.domains[i]->items.contains(k[i]), when + ": an observed entity is not in its domain"); z.push_back(r.domains[i]->crp.assignments.at(k[i])); }
    blocks[z].push_back(v);
  }
  check(r.clusters.size() == blocks.size(), when + ": there are " + h::str(r.clusters.size()) + " blocks instead of " + h::str(blocks.size()));
  for (auto& [z, xs] : blocks) {
    auto it = r.clusters.find(z);
    check(it != r.clusters.end(), when + ": block " + h::strv(z) + " is missing");
    check(it->second->N == (double)xs.size(), when + ": block " + h::strv(z) + " counts " + h::str(it->second->N) + " observations instead of " + h::str(xs.size()));
    if (!blockstats) continue;
    std::mt19937 g(1);
    std::unique_ptr<Distribution<T>> d(r.make_new_distribution(&g));
    copyhyp<T>(d.get(), it->second);
    for (auto&& x : xs) d->incorporate(x);
    V a = stats<T>(it->second), b = stats<T>(d.get());
    check(nearv(a, b), when + ": block " + h::strv(z) + " holds statistics " + h::strv(a) + " instead of " + h::strv(b));
  }
}

// the statistics are a function of the absorbed multiset for every model here but these
template <class T> bool exactstats(const CleanRelation<T>&) { return true; }
inline bool exactstats(const CleanRelation<std::pair<int, int>>&) { return false; }

// frozen picture of a relation's blocks
template <class T> struct Snap {
  Data<T> data;
  std::map<I, std::pair<V, V>> blocks;
  std::map<I, Distribution<T>*> ptr;
  double score;
};
template <class T> Snap<T> snap(const CleanRelation<T>& r) {
  Snap<T> s;
  for (auto& [k, v] : r.data) s.data[k] = v;
  for (auto& [z, d] : r.clusters) { s.blocks[z] = {stats<T>(d), hypers<T>(d)}; s.ptr[z] = d; }
  s.score = r.logp_score();
  return s;
}
template <class T> void same(const Snap<T>& a, const Snap<T>& b, const std::string& when, bool hyp = true) {
  check(a.data == b.data, when + ": the stored observations changed");
  check(a.blocks.size() == b.blocks.size(), when + ": the set of blocks changed");
  for (auto& [z, p] : a.blocks) {
    auto it = b.blocks.find(z);
    check(it != b.blocks.end(), when + ": block " + h::strv(z) + " disappeared");
    check(nearv(p.first, it->second.first), when + ": block " + h::strv(z) + " changed its statistics from " + h::strv(p.first) + " to " + h::strv(it->second.first));
    if (hyp) check(p.second == it->second.second, when + ": block " + h::strv(z) + " changed its hyperparameters");
  }
}

template <class T>
struct World {
  std::vector<std::unique_ptr<Domain>> doms;
  std::unique_ptr<CleanRelation<T>> base;
  std::vector<std::unique_ptr<NoisyRelation<T>>> noisy;
  std::vector<int> nbase;      // -1: base is the clean relation; else index of noisy relation
  std::vector<I> bd, dummy;
  std::vector<std::vector<int>> nd;
  std::mt19937 g;
  int ents = 3;
  Data<T> ref;
  std::vector<Data<T>> nref;
  bool repeated = false;
};
inline std::vector<int> rdoms(int n, int total, bool allow_rep) {
  std::vector<int> o;
  for (int i = 0; i < n; i++) {
    int d;
    do d = h::ri(0, total - 1); while (!allow_rep && std::count(o.begin(), o.end(), d));
    o.push_back(d);
  }
  return o;
}
inline bool isrep(const std::vector<int>& v) { return std::set<int>(v.begin(), v.end()).size() != v.size(); }
inline std::vector<Domain*> dp(const std::vector<std::unique_ptr<Domain>>& D, const std::vector<int>& ix) { std::vector<Domain*> o; for (int i : ix) o.push_back(D[i].get()); return o; }
inline I ritems(int n, int ents) { I o; for (int i = 0; i < n; i++) o.push_back(h::ri(0, ents - 1)); return o; }

template <class K> I rkey(const std::map<I, K>& m) { auto it = m.begin(); std::advance(it, h::ri(0, (int)m.size() - 1)); return it->first; }
}  // namespace md
