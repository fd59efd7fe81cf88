// C13 C14 C15 C16: single-component models, hierarchical models, saved clusterings
#include "model.hh"
#include "hirm.hh"
#include "util_io.hh"
#include <fstream>
#include <unistd.h>
using namespace md;
using namespace h;
using OV = ObservationVariant;
using Ref = std::map<std::string, std::map<I, OV>>;   // relation -> items -> value

// ---- the log_choice calls of the code under test, seen from outside (link-time wrap)
struct Drawn { std::vector<double> w; int idx; };
static std::vector<Drawn> drawn;
static bool watch = false;
static std::function<void()> ondraw;
extern "C" int __real__Z10log_choiceRKSt6vectorIdSaIdEEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE(const std::vector<double>&, std::mt19937*);
extern "C" int __wrap__Z10log_choiceRKSt6vectorIdSaIdEEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE(const std::vector<double>& w, std::mt19937* g) {
  int i = __real__Z10log_choiceRKSt6vectorIdSaIdEEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE(w, g);
  if (watch) drawn.push_back({w, i});
  if (watch && ondraw) { auto f = ondraw; ondraw = nullptr; f(); }
  return i;
}

// ---- schemas
struct RDef { std::string name, type, base; std::vector<std::string> doms; };
static std::string tyname(int t) { return std::vector<std::string>{"bool", "double", "int", "string"}[t]; }
static T_relation mkrel(const RDef& d) {
  if (d.base.empty()) {
    T_clean_relation r; r.domains = d.doms; r.is_observed = false;
    r.distribution_spec = mkd(d.type == "bool" ? dspec<bool>() : d.type == "double" ? dspec<double>() : d.type == "int" ? dspec<int>() : dspec<std::string>());
    return r;
  }
  T_noisy_relation r; r.domains = d.doms; r.is_observed = true; r.base_relation = d.base;
  r.emission_spec = mke(d.type == "bool" ? espec<bool>() : d.type == "double" ? espec<double>() : espec<std::string>());
  return r;
}
static bool allowrep = true;
static RDef rdef(const std::string& name, const std::vector<RDef>& have, int ndom, bool noisyok) {
  RDef d; d.name = name;
  std::vector<const RDef*> bases;
  for (auto& r : have) if (r.type != "int") bases.push_back(&r);
  if (noisyok && !bases.empty() && ri(0, 2) == 0) {
    auto* b = bases[ri(0, bases.size() - 1)];
    d.base = b->name; d.type = b->type; d.doms = b->doms;
    if (d.doms.size() < 3 && ri(0, 1)) {
      std::string x = "D" + str(ri(0, ndom - 1));
      if (allowrep || !std::count(d.doms.begin(), d.doms.end(), x)) d.doms.push_back(x);
    }
  } else {
    d.type = tyname(pick<int>({0, 0, 1, 2, 0, 3}));
    int n = ri(1, allowrep ? 3 : std::min(2, ndom));
    while ((int)d.doms.size() < n) {
      std::string x = "D" + str(ri(0, ndom - 1));
      if (allowrep || !std::count(d.doms.begin(), d.doms.end(), x)) d.doms.push_back(x);
    }
  }
  op(d.name + (d.base.empty() ? " " + d.type : " noisy " + d.type + " of " + d.base) + " over " + strv(d.doms));
  return d;
}
static OV rv(const std::string& t) { if (t == "bool") return rval<bool>(); if (t == "double") return rval<double>(); if (t == "int") return rval<int>(); return rval<std::string>(); }
static std::string ovs(const OV& v) { return std::visit([](auto&& x) { return vs(std::decay_t<decltype(x)>(x)); }, v); }

// ---- reading relations out of a model
template <class T> bool isnoisy(Relation<T>* r, NoisyRelation<T>** n) { *n = dynamic_cast<NoisyRelation<T>*>(r); return *n != nullptr; }

static std::map<I, OV> dataof(const RelationVariant& v) {
  std::map<I, OV> m;
  std::visit([&](auto r) { for (auto& [k, x] : r->get_data()) m[k] = x; }, v);
  return m;
}

// relation v, called name, holds exactly ref[name], and its blocks/lookup agree with the domains; b = base relation in the model
static void checkvar(const std::string& name, const RDef& d, const RelationVariant& v, const RelationVariant* b, const Ref& ref, const std::map<std::string, Domain*>& doms, const std::string& when) {
  std::visit([&](auto r) {
    using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
    const auto& rd = r->get_domains();
    check(rd.size() == d.doms.size(), when + ": " + name + " has a wrong number of domains");
    for (size_t i = 0; i < rd.size(); i++) check(doms.count(d.doms[i]) && rd[i] == doms.at(d.doms[i]), when + ": " + name + " does not point to its component's domain " + d.doms[i]);
    Data<T> mine;
    for (auto& [k, x] : ref.at(name)) mine[k] = std::get<T>(x);
    if (d.base.empty()) {
      auto* c = dynamic_cast<CleanRelation<T>*>(r);
      check(c != nullptr, when + ": " + name + " should be a clean relation");
      checkrel(*c, mine, when + ", " + name);
    } else {
      auto* n = dynamic_cast<NoisyRelation<T>*>(r);
      check(n != nullptr, when + ": " + name + " should be a noisy relation");
      check(n->base_relation == std::get<Relation<T>*>(*b), when + ": " + name + " does not point to the current base relation " + d.base);
      check(n->data.size() == mine.size(), when + ": " + name + " stores " + str(n->data.size()) + " observations instead of " + str(mine.size()));
      Data<std::pair<T, T>> pairs;
      std::map<I, std::set<I>> b2n;
      for (auto& [k, x] : mine) {
        check(n->data.count(k) && n->data.at(k) == x, when + ": " + name + " misses or alters observation " + strv(k));
        I bi(k.begin(), k.begin() + n->base_relation->get_domains().size());
        pairs[k] = {std::get<T>(ref.at(d.base).at(bi)), x};
        b2n[bi].insert(k);
      }
      for (auto& [bi, s] : b2n) { check(n->base_to_noisy_items.count(bi) && n->base_to_noisy_items.at(bi).size() == s.size(), when + ": the clean-to-dirty lookup of " + name + " is wrong"); for (auto& q : s) check(n->base_to_noisy_items.at(bi).contains(q), when + ": the clean-to-dirty lookup of " + name + " misses an observation"); }
      checkrel(n->emission_relation, pairs, when + ", " + name + "'s error model", exactstats(n->emission_relation));
    }
  }, v);
}
static double crpscore(const CRP& c) {
  double s = 0; int n = 0;
  for (auto& [t, m] : c.tables) { s += std::log(c.alpha) + std::lgamma(m.size()); n += m.size(); }
  for (int i = 0; i < n; i++) s -= std::log(c.alpha + i);
  return s;
}
static void checkcrp(const CRP& c, const std::set<int>& items, const std::string& when) {
  check(c.N == (int)items.size() && c.assignments.size() == items.size(), when + ": the clustering counts " + str(c.N) + " items instead of " + str(items.size()));
  size_t tot = 0;
  for (auto& [t, m] : c.tables) { check(!m.empty(), when + ": empty table"); tot += m.size(); for (int x : m) check(c.assignments.count(x) && c.assignments.at(x) == t, when + ": tables and assignments disagree"); }
  check(tot == items.size(), when + ": tables do not partition the items");
  for (int x : items) check(c.assignments.count(x), when + ": an item is not seated");
}
// everything a component must satisfy; rels: the relations it should hold
static double checkirm(const IRM& m, const std::vector<RDef>& rels, const std::map<std::string, RelationVariant>& all, const Ref& ref, const std::string& when) {
  check(m.relations.size() == rels.size(), when + ": the component holds " + str(m.relations.size()) + " relations instead of " + str(rels.size()));
  check(m.schema.size() == rels.size(), when + ": the component's schema lists a wrong number of relations");
  std::map<std::string, std::set<std::string>> d2r;
  std::map<std::string, std::set<int>> ents;
  std::map<std::string, std::set<std::string>> b2n;
  for (auto& r : rels) {
    check(m.relations.count(r.name) && m.schema.count(r.name), when + ": relation " + r.name + " is missing from its component");
    for (size_t i = 0; i < r.doms.size(); i++) { d2r[r.doms[i]].insert(r.name); ents[r.doms[i]]; for (auto& [k, x] : ref.at(r.name)) ents[r.doms[i]].insert(k[i]); }
    if (!r.base.empty()) b2n[r.base].insert(r.name);
  }
  check(m.domains.size() == d2r.size(), when + ": the component has " + str(m.domains.size()) + " domains instead of " + str(d2r.size()));
  check(m.domain_to_relations.size() == d2r.size(), when + ": the domain-to-relations lookup has a wrong number of domains");
  std::map<std::string, Domain*> doms;
  double score = 0;
  for (auto& [d, rs] : d2r) {
    auto it = m.domains.find(d);
    check(it != m.domains.end(), when + ": domain " + d + " is missing");
    doms[d] = it->second;
    auto jt = m.domain_to_relations.find(d);
    check(jt != m.domain_to_relations.end() && std::set<std::string>(jt->second.begin(), jt->second.end()) == rs, when + ": domain " + d + " does not list exactly the relations over it");
    std::set<int> have(it->second->items.begin(), it->second->items.end());
    check(have == ents[d], when + ": domain " + d + " holds " + str(have.size()) + " entities while its relations mention " + str(ents[d].size()));
    checkcrp(it->second->crp, ents[d], when + ", domain " + d);
    for (int e = 0; e < 6; e++) check(m.has_observation(d, e) == (ents[d].count(e) > 0), when + ": has_observation is wrong");
    score += crpscore(it->second->crp);
  }
  size_t nb = 0;
  for (auto& [b, ns] : m.base_to_noisy_relations) {
    if (ns.empty()) continue;
    nb++;
    check(std::multiset<std::string>(ns.begin(), ns.end()) == std::multiset<std::string>(b2n[b].begin(), b2n[b].end()), when + ": the component's lookup of noisy relations is wrong for " + b);
  }
  check(nb == std::count_if(b2n.begin(), b2n.end(), [](auto& p) { return !p.second.empty(); }), when + ": the component's lookup of noisy relations misses a base");
  for (auto& r : rels) {
    auto& v = m.relations.at(r.name);
    checkvar(r.name, r, v, r.base.empty() ? nullptr : &all.at(r.base), ref, doms, when);
    std::visit([&](auto rel) {
      using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
      if (auto* c = dynamic_cast<CleanRelation<T>*>(rel)) for (auto& [z, d] : c->clusters) score += d->logp_score();
      else for (auto& [z, d] : dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation.clusters) score += d->logp_score();
    }, v);
  }
  near(m.logp_score(), score, when + ": the joint log score is not the sum of its parts");
  return score;
}

// ---- observations that can be added or removed
static bool dependent(const std::vector<RDef>& rs, const Ref& ref, const std::string& b, const I& k) {
  for (auto& r : rs) if (r.base == b) for (auto& [q, v] : ref.at(r.name)) if (I(q.begin(), q.begin() + k.size()) == k) return true;
  return false;
}
static const RDef& defof(const std::vector<RDef>& rs, const std::string& n) { for (auto& r : rs) if (r.name == n) return r; abort(); }
template <class M> bool robs(M& m, std::vector<RDef>& rs, Ref& ref, std::mt19937* g, int ents) {
  if (rs.empty()) return false;
  auto& r = pick(rs);
  auto& mine = ref[r.name];
  if (ri(0, 3) == 0 && !mine.empty()) {
    I k = rkey(mine);
    if (dependent(rs, ref, r.name, k)) return false;
    op("unincorporate " + r.name + strv(k));
    m.unincorporate(r.name, k);
    mine.erase(k);
    return true;
  }
  I k;
  if (r.base.empty()) k = ritems(r.doms.size(), ents);
  else {
    auto& bm = ref[r.base];
    if (bm.empty()) return false;
    k = rkey(bm);
    while (k.size() < r.doms.size()) k.push_back(ri(0, ents - 1));
  }
  if (mine.count(k)) return false;
  OV v = rv(r.type);
  if (!r.base.empty() && ri(0, 1)) v = ref[r.base].at(I(k.begin(), k.begin() + defof(rs, r.base).doms.size()));
  op("incorporate " + r.name + strv(k) + "=" + ovs(v));
  m.incorporate(g, r.name, k, v);
  mine[k] = v;
  return true;
}

// ---------------------------------------------------------------- single component
struct M1 {
  std::vector<RDef> rs; Ref ref; std::unique_ptr<IRM> m; std::mt19937 g; int ents, ndom, serial = 0;
  std::map<std::string, RelationVariant> all() { std::map<std::string, RelationVariant> o; for (auto& r : rs) { check(m->relations.count(r.name), "relation " + r.name + " is missing"); o[r.name] = m->relations.at(r.name); } return o; }
  void chk(const std::string& when) { checkirm(*m, rs, all(), ref, when); }
};
// one case in five is several times larger
static bool big = false;
static void rescale() { big = ri(0, 4) == 0; }
static void build1(M1& w) {
  w.ndom = ri(1, 3); if (!allowrep) w.ndom = std::max(2, w.ndom);
  w.ents = big ? ri(3, 6) : ri(2, 4); w.g.seed(rng());
  T_schema s;
  int n = big ? ri(3, 7) : ri(1, 4);
  for (int i = 0; i < n; i++) { auto d = rdef(std::string(1, (char)('a' + ri(0, 25))) + "R" + str(w.serial++), w.rs, w.ndom, true); w.rs.push_back(d); s[d.name] = mkrel(d); w.ref[d.name]; }
  w.m.reset(new IRM(s));
}
static void addrel(M1& w) {
  auto d = rdef("R" + str(w.serial++), w.rs, w.ndom, true);
  op("add_relation");
  w.rs.push_back(d); w.ref[d.name];
  auto t = mkrel(d);
  std::visit([&](auto& x) { w.m->add_relation(d.name, x); }, t);
}
static bool delrel(M1& w) {
  if (w.rs.empty()) return false;
  int i = ri(0, w.rs.size() - 1);
  for (auto& r : w.rs) if (r.base == w.rs[i].name) return false;
  op("remove_relation " + w.rs[i].name);
  w.m->remove_relation(w.rs[i].name);
  w.ref.erase(w.rs[i].name);
  w.rs.erase(w.rs.begin() + i);
  return true;
}
static void readlatent(const RelationVariant& v, std::map<I, OV>& mine, const std::string& name) {
  auto d = dataof(v);
  check(d.size() == mine.size(), "resampling latent values of " + name + " changed the set of observations");
  for (auto& [k, x] : d) { check(mine.count(k), "resampling latent values of " + name + " changed the set of observations"); mine[k] = x; }
}
static void c13() {
  begin("single-component history");
  allowrep = true;
  rescale();
  M1 w; build1(w);
  w.chk("at the start");
  if (big) { for (int i = 0; i < 25; i++) robs(*w.m, w.rs, w.ref, &w.g, w.ents); w.chk("after filling"); }
  int n = ri(8, 26);
  int down = ri(0, 3) ? n : ri(n / 2, n - 1);
  for (int i = 0; i < n; i++) {
    int a = ri(0, 19);
    if (i == down) {
      for (int k = 0; k < 200 && !w.rs.empty(); k++) if (delrel(w)) w.chk("while removing every relation");
      a = 0;
    }
    if (w.rs.empty()) a = 0;
    if (a == 0) addrel(w);
    else if (a == 1) { if (!delrel(w)) continue; }
    else if (a == 2 && !w.rs.empty()) {
      // a sampled observation enters through the relation itself
      auto& r = pick(w.rs);
      if (!r.base.empty()) continue;
      I k = ritems(r.doms.size(), w.ents);
      if (w.ref[r.name].count(k)) continue;
      op("sample_and_incorporate " + r.name + strv(k));
      std::visit([&](auto rel) { w.ref[r.name][k] = rel->sample_and_incorporate(&w.g, k); }, w.m->relations.at(r.name));
    }
    else if (a == 3) { op("hyperparameter moves"); for (auto& [q, v] : w.m->relations) std::visit([&](auto rel) { rel->transition_cluster_hparams(&w.g, 1); }, v); for (auto& [q, d] : w.m->domains) d->crp.transition_alpha(&w.g); }
    else if (!robs(*w.m, w.rs, w.ref, &w.g, w.ents)) continue;
    w.chk("after the last step");
  }
  done();
}
static bool reprel(const M1& w) { for (auto& r : w.rs) if (std::set<std::string>(r.doms.begin(), r.doms.end()).size() != r.doms.size()) return true; return false; }

// total data score of the relations that mention the entity
static double relscore(IRM& m, const std::string& d) { double s = 0; for (auto& r : m.domain_to_relations.at(d)) s += std::visit([](auto x) { return x->logp_score(); }, m.relations.at(r)); return s; }
static void moveto(IRM& m, const std::string& d, int item, int t, std::mt19937* g) {
  for (auto& r : m.domain_to_relations.at(d)) std::visit([&](auto x) { if (x->has_observation(*m.domains.at(d), item)) x->set_cluster_assignment_gibbs(*m.domains.at(d), item, t, g); }, m.relations.at(r));
  m.domains.at(d)->set_cluster_assignment_gibbs(item, t);
}
struct Hy { std::map<std::string, double> alpha; };
static void c14() {
  begin("entity moves");
  allowrep = false;
  rescale();
  M1 w; build1(w);
  for (int i = 0; i < (big ? 60 : 24); i++) robs(*w.m, w.rs, w.ref, &w.g, w.ents);
  // scatter: distinct relation hyperparameters would make a new block differ from its prior; keep the default ones
  for (int step = 0; step < 5; step++) {
    std::vector<std::pair<std::string, int>> cand;
    for (auto& [d, dom] : w.m->domains) for (int e : dom->items) cand.push_back({d, e});
    if (cand.empty()) break;
    std::sort(cand.begin(), cand.end());
    auto [d, e] = pick(cand);
    Domain* dom = w.m->domains.at(d);
    auto before = std::map<std::string, std::map<int, int>>();
    std::map<std::string, double> alpha;
    for (auto& [dn, x] : w.m->domains) { before[dn] = {x->crp.assignments.begin(), x->crp.assignments.end()}; alpha[dn] = x->crp.alpha; }
    int cur = dom->crp.assignments.at(e);
    // expected weights by moving the entity around for real
    std::map<int, double> lw;
    bool lone = dom->crp.tables.at(cur).size() == 1;
    std::vector<int> ts;
    int mx = -1;
    for (auto& [t, s] : dom->crp.tables) { ts.push_back(t); mx = std::max(mx, t); }
    int fresh = mx + 1;
    if (!lone) ts.push_back(fresh);
    op("move " + d + "/" + str(e));
    for (int t : ts) {
      double cw = t == fresh || (lone && t == cur) ? dom->crp.alpha : dom->crp.tables.at(t).size() - (t == cur ? 1 : 0);
      if (t != cur) moveto(*w.m, d, e, t, &w.g);
      lw[t] = std::log(cw) + relscore(*w.m, d);
      if (t != cur) moveto(*w.m, d, e, cur, &w.g);
    }
    w.chk("after moving an entity around and back");
    double mxl = -1e300, Z = 0;
    for (auto& [t, l] : lw) mxl = std::max(mxl, l);
    for (auto& [t, l] : lw) Z += std::exp(l - mxl);
    int mode = ri(0, 3);
    if (mode == 0) {   // sweeps
      std::vector<std::string> ds; for (auto& [dn, x] : w.m->domains) if (ri(0, 1)) ds.push_back(dn);
      op("sweep");
      if (ri(0, 1)) w.m->transition_cluster_assignments_all(&w.g); else { auto keep = before; w.m->transition_cluster_assignments(&w.g, ds); for (auto& [dn, x] : w.m->domains) if (!std::count(ds.begin(), ds.end(), dn)) check(before[dn] == std::map<int, int>(x->crp.assignments.begin(), x->crp.assignments.end()), "a sweep over other domains changed domain " + dn); }
    } else {
      watch = true; drawn.clear();
      w.m->transition_cluster_assignment_item(&w.g, d, e);
      watch = false;
      for (auto& [dn, x] : w.m->domains) for (auto& [q, t] : x->crp.assignments) if (!(dn == d && q == e)) check(before[dn].at(q) == t, "the move changed the table of another entity");
      int got = dom->crp.assignments.at(e);
      int cls = got;
      if (!lw.count(cls)) { check(!dom->crp.tables.empty() && dom->crp.tables.at(got).size() == 1, "the entity moved to an unexpected table"); cls = lone ? cur : fresh; }
      if (drawn.size() == 1) {
        auto& D = drawn[0];
        check(D.w.size() == lw.size(), "the move weighed " + str(D.w.size()) + " tables instead of " + str(lw.size()));
        double m2 = *std::max_element(D.w.begin(), D.w.end()), Z2 = 0;
        for (double x : D.w) Z2 += std::exp(x - m2);
        std::vector<double> a, b;
        for (double x : D.w) a.push_back(x - m2 - std::log(Z2));
        for (auto& [t, l] : lw) b.push_back(l - mxl - std::log(Z));
        near(a[D.idx], lw[cls] - mxl - std::log(Z), "the chosen table's weight is not prior times data probability", 1e-5);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        for (size_t i = 0; i < a.size(); i++) near(a[i], b[i], "the tables' weights are not prior times data probability", 1e-5);
      }
    }
    for (auto& [dn, x] : w.m->domains) check(alpha[dn] == x->crp.alpha, "the move changed a clustering hyperparameter");
    w.chk("after the move");
    if (ri(0, 2) == 0) { double tt = 0; bool lat = ri(0, 1); op("inference step"); 
      for (auto& [q, t] : w.m->schema) std::visit([&](auto& x) { x.is_observed = !lat; }, t);
      single_step_irm_inference(&w.g, w.m.get(), tt, false, 1, lat);
      if (lat) for (auto& r : w.rs) if (w.m->base_to_noisy_relations.count(r.name)) readlatent(w.m->relations.at(r.name), w.ref[r.name], r.name);
      w.chk("after an inference step"); 
      // back to default hyperparameters: rebuild
      M1 v; v.rs = w.rs; v.ref = w.ref; v.ents = w.ents; v.ndom = w.ndom; v.serial = w.serial; v.g = w.g;
      T_schema s; for (auto& r : w.rs) s[r.name] = mkrel(r);
      v.m.reset(new IRM(s));
      for (auto& r : v.rs) for (auto& [k, x] : v.ref[r.name]) v.m->incorporate(&v.g, r.name, k, x);
      w.m = std::move(v.m); w.g = v.g;
      w.chk("after rebuilding");
    }
  }
  done();
}

// ---------------------------------------------------------------- hierarchical model
struct M2 {
  std::vector<RDef> rs; Ref ref; std::unique_ptr<HIRM> m; std::mt19937 g; int ents, ndom, serial = 0;
  void chk(const std::string& when) {
    check(m->schema.size() == rs.size(), when + ": the schema lists " + str(m->schema.size()) + " relations instead of " + str(rs.size()));
    check(m->relation_to_code.size() == rs.size() && m->code_to_relation.size() == rs.size(), when + ": relation codes are not one per relation");
    std::set<int> codes;
    std::map<int, std::vector<RDef>> comp;
    std::map<std::string, RelationVariant> all;
    std::map<std::string, std::set<std::string>> b2n;
    for (auto& r : rs) {
      check(m->schema.count(r.name) && m->relation_to_code.count(r.name), when + ": relation " + r.name + " is not registered");
      int c = m->relation_to_code.at(r.name);
      check(m->code_to_relation.count(c) && m->code_to_relation.at(c) == r.name, when + ": the code of " + r.name + " names another relation");
      codes.insert(c);
      check(m->crp.assignments.count(c), when + ": relation " + r.name + " is not seated");
      int t = m->crp.assignments.at(c);
      check(m->relation_to_table(r.name) == t, when + ": relation_to_table is wrong");
      comp[t].push_back(r);
      check(m->irms.count(t), when + ": the component of " + r.name + " does not exist");
      check(m->irms.at(t)->relations.count(r.name), when + ": relation " + r.name + " is not in the component its code names");
      all[r.name] = m->irms.at(t)->relations.at(r.name);
      check(all[r.name] == m->get_relation(r.name), when + ": get_relation is wrong");
      if (!r.base.empty()) b2n[r.base].insert(r.name);
    }
    checkcrp(m->crp, codes, when + ", relation clustering");
    check(m->irms.size() == comp.size(), when + ": there are " + str(m->irms.size()) + " components instead of " + str(comp.size()));
    size_t nb = 0;
    for (auto& [b, ns] : m->base_to_noisy_relations) { if (ns.empty()) continue; nb++; check(std::multiset<std::string>(ns.begin(), ns.end()) == std::multiset<std::string>(b2n[b].begin(), b2n[b].end()), when + ": the lookup of noisy relations is wrong for " + b); }
    check(nb == b2n.size(), when + ": the lookup of noisy relations misses a base");
    double s = crpscore(m->crp);
    for (auto& [t, v] : comp) s += checkirm(*m->irms.at(t), v, all, ref, when + ", component " + str(t));
    near(m->logp_score(), s, when + ": the joint log score is not the relation clustering's plus the components'");
  }
};
static void build2(M2& w) {
  w.ndom = ri(1, 3); if (!allowrep) w.ndom = std::max(2, w.ndom);
  w.ents = big ? ri(3, 5) : ri(2, 3); w.g.seed(rng());
  T_schema s;
  int n = big ? ri(5, 9) : ri(2, 5);
  for (int i = 0; i < n; i++) { auto d = rdef(std::string(1, (char)('a' + ri(0, 25))) + "R" + str(w.serial++), w.rs, w.ndom, true); w.rs.push_back(d); s[d.name] = mkrel(d); w.ref[d.name]; }
  w.m.reset(new HIRM(s, &w.g));
}
static bool delrel2(M2& w) {
  if (w.rs.empty()) return false;
  int j = ri(0, w.rs.size() - 1);
  for (auto& r : w.rs) if (r.base == w.rs[j].name) return false;
  op("remove_relation " + w.rs[j].name);
  w.m->remove_relation(w.rs[j].name);
  w.ref.erase(w.rs[j].name); w.rs.erase(w.rs.begin() + j);
  return true;
}
static void c15() {
  begin("hierarchical-model history");
  allowrep = false;
  rescale();
  M2 w; build2(w);
  w.chk("at the start");
  if (big) { for (int i = 0; i < 20; i++) robs(*w.m, w.rs, w.ref, &w.g, w.ents); w.chk("after filling"); }
  int n = ri(8, 26);
  // some histories end by taking every relation away and starting afresh
  int down = ri(0, 3) ? n : ri(n / 2, n - 1);
  for (int i = 0; i < n; i++) {
    int a = ri(0, 19);
    if (i == down) {
      for (int k = 0; k < 200 && !w.rs.empty(); k++) if (delrel2(w)) w.chk("while removing every relation");
      a = 0;
    }
    if (w.rs.empty()) a = 0;
    if (a == 0) {
      auto d = rdef("R" + str(w.serial++), w.rs, w.ndom, true);
      op("add_relation"); w.rs.push_back(d); w.ref[d.name];
      w.m->add_relation(&w.g, d.name, mkrel(d));
    } else if (a == 1) {
      if (!delrel2(w)) continue;
    } else if (a <= 5) {
      auto& r = pick(w.rs);
      op("transition_cluster_assignment_relation " + r.name);
      int c = w.m->relation_to_code.at(r.name);
      auto before = std::map<int, int>(w.m->crp.assignments.begin(), w.m->crp.assignments.end());
      bool lone = w.m->crp.tables.at(before[c]).size() == 1;
      size_t nt = w.m->crp.tables.size() + (lone ? 0 : 1);
      std::vector<double> want;
      ondraw = [&]() {
        // at the draw every existing component holds a copy of the relation with its observations
        for (auto& [t, cw] : w.m->crp.tables_weights_gibbs(before[c])) {
          if (!w.m->irms.count(t)) { want.push_back(std::nan("")); continue; }
          auto& irm = *w.m->irms.at(t);
          double n = t == before[c] && lone ? w.m->crp.alpha : w.m->crp.tables.at(t).size() - (t == before[c] ? 1 : 0);
          check(irm.relations.count(r.name), "a component is weighed without the relation in it");
          want.push_back(std::log(n) + std::visit([](auto x) { return x->logp_score(); }, irm.relations.at(r.name)));
        }
      };
      watch = true; drawn.clear();
      w.m->transition_cluster_assignment_relation(&w.g, r.name);
      watch = false;
      ondraw = nullptr;
      if (drawn.size() == 1) {
        check(drawn[0].w.size() == nt, "the move weighed " + str(drawn[0].w.size()) + " components instead of " + str(nt));
        for (size_t k = 0; k < want.size() && k < drawn[0].w.size(); k++) if (!std::isnan(want[k])) near(drawn[0].w[k], want[k], "weight of component " + str(k) + " for the move");
      }
      for (auto& [q, t] : w.m->crp.assignments) if (q != c) check(before.at(q) == t, "the move changed another relation's component");
    } else if (a <= 8) {
      auto& r = pick(w.rs);
      std::vector<int> ts;
      int mx = 0;
      for (auto& [t, s] : w.m->crp.tables) { if (t != w.m->relation_to_table(r.name)) ts.push_back(t); mx = std::max(mx, t); }
      ts.push_back(mx + 1);
      int t = pick(ts);
      op("set_cluster_assignment_gibbs " + r.name + "->" + str(t));
      auto before = std::map<int, int>(w.m->crp.assignments.begin(), w.m->crp.assignments.end());
      w.m->set_cluster_assignment_gibbs(&w.g, r.name, t);
      check(w.m->relation_to_table(r.name) == t, "the relation is not at the requested component");
      for (auto& [q, tt] : w.m->crp.assignments) if (q != w.m->relation_to_code.at(r.name)) check(before.at(q) == tt, "the move changed another relation's component");
    } else if (a == 9) {
      std::vector<std::string> bs;
      for (auto& [b, ns] : w.m->base_to_noisy_relations) if (!ns.empty()) bs.push_back(b);
      if (bs.empty()) continue;
      std::sort(bs.begin(), bs.end());
      auto b = pick(bs);
      op("transition_latent_values_relation " + b);
      w.m->transition_latent_values_relation(&w.g, b);
      readlatent(w.m->get_relation(b), w.ref[b], b);
    } else if (a == 10) {
      op("component inference steps");
      double tt = 0;
      for (auto& [t, irm] : w.m->irms) single_step_irm_inference(&w.g, irm, tt, false, 1, false);
    } else if (a == 11) {
      op("sweep over relations");
      if (ri(0, 1)) w.m->transition_cluster_assignments_all(&w.g);
      else { std::vector<std::string> v; for (auto& r : w.rs) if (ri(0, 1)) v.push_back(r.name); w.m->transition_cluster_assignments(&w.g, v); }
    } else if (!robs(*w.m, w.rs, w.ref, &w.g, w.ents)) continue;
    w.chk("after the last step");
  }
  done();
}

// ---------------------------------------------------------------- C16
static std::string mkfile(const std::string& name, const std::string& text) { std::ofstream f(name); f << text; return name; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::istringstream s(t); for (std::string l; std::getline(s, l);) if (!l.empty()) o.push_back(l); return o; }
static std::vector<std::string> canon(const std::string& t) {   // order of lines within a component and of names within a line are presentation
  std::vector<std::string> o; std::string sec;
  for (auto& l : lines(t)) {
    if (l.rfind("irm=", 0) == 0) { sec = l; o.push_back(l); continue; }
    std::istringstream s(l); std::vector<std::string> w; for (std::string x; s >> x;) w.push_back(x);
    size_t fix = sec.empty() && isdigit(w[0][0]) ? 1 : 2;
    std::sort(w.begin() + std::min(fix, w.size()), w.end());
    std::string j = sec; for (auto& x : w) j += " " + x;
    o.push_back(j);
  }
  std::sort(o.begin(), o.end());
  return o;
}
static void farmoves(IRM& m, std::mt19937* g) {   // tables whose ids have many digits
  for (auto& [d, dom] : m.domains) for (int e : std::vector<int>(dom->items.begin(), dom->items.end())) if (ri(0, 2) == 0) {
    int t = ri(0, 3) ? ri(90, 130) : ri(0, 2000000);
    if (dom->crp.assignments.at(e) == t) continue;
    op("move " + d + ":" + str(e) + "->" + str(t));
    moveto(m, d, e, t, g);
  }
}
struct Files { std::string schema, obs; std::vector<RDef> rs; std::set<std::string> observed; };
static Files rfiles() {
  Files f;
  allowrep = false;
  int ndom = ri(2, 3), n = ri(1, 4);
  std::string s, o;
  for (int i = 0; i < n; i++) f.rs.push_back(rdef(std::string(1, (char)('a' + ri(0, 25))) + "rel" + str(i), f.rs, ndom, true));
  std::map<std::string, std::set<I>> have;
  std::set<std::string> isb;
  for (auto& r : f.rs) if (!r.base.empty()) isb.insert(r.base);
  for (auto& r : f.rs) {
    std::string spec = r.base.empty() ? (r.type == "bool" ? "bernoulli" : r.type == "double" ? "normal" : r.type == "int" ? "categorical[k=3]" : "bigram") : (r.type == "bool" ? "sometimes_bitflip" : r.type == "double" ? "gaussian" : "simple_string");
    s += r.name + " ~ " + spec + "(" + (r.base.empty() ? "" : r.base + "; ");
    for (size_t i = 0; i < r.doms.size(); i++) s += (i ? ", " : "") + r.doms[i];
    s += ")\n";
  }
  std::vector<std::string> names{"alice", "Bob", "x-1", "7", "zed_9", "q.r"};
  for (auto& r : f.rs) {
    bool latent = isb.count(r.name) && (r.base.empty() ? ri(0, 1) : 0);
    // bases left out are latent: their values are sampled
    if (latent) continue;
    f.observed.insert(r.name);
  }
  // entity tuples: a noisy relation's base tuple must be observed when the base is observed
  for (auto& r : f.rs) {
    if (!f.observed.count(r.name)) continue;
    int m = ri(1, 6);
    for (int j = 0; j < m; j++) {
      I k;
      if (!r.base.empty() && f.observed.count(r.base)) { auto& b = have[r.base]; auto it = b.begin(); std::advance(it, ri(0, b.size() - 1)); k = *it; while (k.size() < r.doms.size()) k.push_back(ri(0, 5)); }
      else k = ritems(r.doms.size(), 5);
      if (!have[r.name].insert(k).second) continue;
      OV v = rv(r.type);
      std::string x = std::visit([](auto&& y) { std::ostringstream q; q << y; return q.str(); }, v);
      if (r.type == "string") { x = ""; for (int c = 0; c < 1 + ri(0, 3); c++) x += (char)('a' + ri(0, 3)); }
      o += x + "," + r.name;
      for (int e : k) o += "," + names[e];
      o += "\n";
    }
  }
  f.schema = s; f.obs = o;
  op("schema " + s + " observations " + o);
  return f;
}
// entity names: domain -> table -> names
using Tabs = std::map<std::string, std::map<int, std::set<std::string>>>;
static Tabs tabs(const IRM& m, const T_encoding& e) { Tabs o; for (auto& [d, dom] : m.domains) { o[d]; for (auto& [t, s] : dom->crp.tables) for (int x : s) o[d][t].insert(e.second.at(d).at(x)); } return o; }
static std::map<I, std::multiset<std::string>> blocks(const RelationVariant& v, const T_encoding& e) {
  std::map<I, std::multiset<std::string>> o;
  std::visit([&](auto r) {
    for (auto& [k, x] : r->get_data()) {
      I z; std::string t;
      for (size_t i = 0; i < k.size(); i++) { auto* d = r->get_domains()[i]; z.push_back(d->crp.assignments.at(k[i])); t += e.second.at(d->name).at(k[i]) + ","; }
      std::ostringstream q; q.precision(10); q << t << x; o[z].insert(q.str());
    }
  }, v);
  return o;
}
static void c16irm() {
  begin("save and load, one component");
  auto f = rfiles();
  mkfile("s.txt", f.schema); mkfile("o.txt", f.obs);
  std::mt19937 g(rng());
  T_schema sc = load_schema("s.txt"); auto ob = load_observations("o.txt", sc); auto enc = calculate_encoding(sc, ob);
  IRM m(sc);
  incorporate_observations(&g, &m, enc, ob);
  double tt = 0;
  int it = ri(0, 2);
  for (int i = 0; i < it; i++) single_step_irm_inference(&g, &m, tt, false, 1, true);
  if (ri(0, 2) == 0) farmoves(m, &g);
  to_txt("c.txt", m, enc);
  std::ostringstream t1; to_txt(t1, m, enc);
  op("clusters " + t1.str());
  IRM m2({});
  from_txt(&g, &m2, "s.txt", "o.txt", "c.txt");
  T_schema sc2 = load_schema("s.txt"); auto ob2 = load_observations("o.txt", sc2); auto enc2 = calculate_encoding(sc2, ob2);
  check(tabs(m, enc) == tabs(m2, enc2), "the reloaded model has other entity tables");
  check(m2.relations.size() == f.rs.size(), "the reloaded model has other relations");
  for (auto& r : f.rs) {
    if (f.observed.count(r.name)) check(blocks(m.get_relation(r.name), enc) == blocks(m2.get_relation(r.name), enc2), "the reloaded model has other block contents for " + r.name);
  }
  std::ostringstream t2; to_txt(t2, m2, enc2);
  check(canon(t1.str()) == canon(t2.str()), "writing the reloaded model lists other clusters: " + t2.str());
  // the file itself lists every table once, with its entities
  auto cl = load_clusters_irm("c.txt");
  Tabs ft; for (auto& [d, x] : cl) for (auto& [t, s] : x) { ft[d][t] = std::set<std::string>(s.begin(), s.end()); check(ft[d][t].size() == s.size(), "the file lists an entity twice"); }
  auto mt = tabs(m, enc); std::erase_if(mt, [](auto& p) { return p.second.empty(); });
  check(ft == mt, "the cluster file does not list the model's tables");
  done();
}
static void c16hirm() {
  begin("save and load, hierarchical");
  auto f = rfiles();
  mkfile("s.txt", f.schema); mkfile("o.txt", f.obs);
  std::mt19937 g(rng());
  T_schema sc = load_schema("s.txt"); auto ob = load_observations("o.txt", sc); auto enc = calculate_encoding(sc, ob);
  HIRM m(sc, &g);
  incorporate_observations(&g, &m, enc, ob);
  double tt = 0;
  int it = ri(0, 2);
  for (int i = 0; i < it; i++) { m.transition_cluster_assignments_all(&g); for (auto& [t, irm] : m.irms) single_step_irm_inference(&g, irm, tt, false, 1, false); }
  if (ri(0, 2) == 0) for (auto& r : f.rs) if (ri(0, 1)) { int t = ri(0, 3) ? ri(90, 130) : ri(0, 2000000); if (m.relation_to_table(r.name) == t) continue; op("move " + r.name + "->" + str(t)); m.set_cluster_assignment_gibbs(&g, r.name, t); }
  if (ri(0, 2) == 0) for (auto& [t, irm] : m.irms) farmoves(*irm, &g);
  to_txt("c.txt", m, enc);
  std::ostringstream t1; to_txt(t1, m, enc);
  op("clusters " + t1.str());
  HIRM m2({}, &g);
  from_txt(&g, &m2, "s.txt", "o.txt", "c.txt");
  T_schema sc2 = load_schema("s.txt"); auto ob2 = load_observations("o.txt", sc2); auto enc2 = calculate_encoding(sc2, ob2);
  check(m2.relation_to_code.size() == f.rs.size(), "the reloaded model has other relations");
  check(m.irms.size() == m2.irms.size(), "the reloaded model has another number of components");
  for (auto& r : f.rs) {
    check(m.relation_to_table(r.name) == m2.relation_to_table(r.name), "relation " + r.name + " reloads into another component");
    if (f.observed.count(r.name)) check(blocks(m.get_relation(r.name), enc) == blocks(m2.get_relation(r.name), enc2), "the reloaded model has other block contents for " + r.name);
  }
  for (auto& [t, irm] : m.irms) check(tabs(*irm, enc) == tabs(*m2.irms.at(t), enc2), "the reloaded component " + str(t) + " has other entity tables");
  std::ostringstream t2; to_txt(t2, m2, enc2);
  check(canon(t1.str()) == canon(t2.str()), "writing the reloaded model lists other clusters: " + t2.str());
  done();
}

// ---------------------------------------------------------------- C17: absorbing loaded observations
static void c17inc() {
  begin("absorb an observation file");
  auto f = rfiles();
  bool hier = ri(0, 1);
  op(hier ? "hierarchical" : "one component");
  mkfile("s.txt", f.schema); mkfile("o.txt", f.obs);
  std::mt19937 g(rng());
  T_schema sc = load_schema("s.txt"); auto ob = load_observations("o.txt", sc); auto enc = calculate_encoding(sc, ob);
  std::unique_ptr<IRM> m1; std::unique_ptr<HIRM> m2;
  std::variant<IRM*, HIRM*> hi;
  if (hier) { m2 = std::make_unique<HIRM>(sc, &g); hi = m2.get(); } else { m1 = std::make_unique<IRM>(sc); hi = m1.get(); }
  incorporate_observations(&g, hi, enc, ob);
  Ref ref;
  std::map<std::string, RelationVariant> all;
  std::istringstream is(f.obs);
  std::string l;
  for (auto& r : f.rs) { ref[r.name]; all[r.name] = std::visit([&](auto m) { return m->get_relation(r.name); }, hi); }
  while (std::getline(is, l)) {
    std::vector<std::string> p; std::string w; std::istringstream ls(l);
    while (std::getline(ls, w, ',')) p.push_back(w);
    auto& d = defof(f.rs, p[1]);
    I k; for (size_t i = 2; i < p.size(); i++) k.push_back(enc.first.at(d.doms[i - 2]).at(p[i]));
    OV v;
    if (d.type == "bool") v = p[0] == "1"; else if (d.type == "int") v = std::stoi(p[0]); else if (d.type == "double") v = std::stod(p[0]); else v = p[0];
    ref[p[1]][k] = v;
  }
  // a latent base holds one value for each base entity tuple of its dirty observations
  for (auto& r : f.rs) if (!f.observed.count(r.name)) {
    std::set<I> ex;
    for (auto& q : f.rs) if (q.base == r.name) for (auto& [k, x] : ref[q.name]) ex.insert(I(k.begin(), k.begin() + r.doms.size()));
    auto have = dataof(all[r.name]);
    check(have.size() == ex.size(), "latent relation " + r.name + " holds " + str(have.size()) + " values instead of " + str(ex.size()));
    for (auto& k : ex) check(have.count(k), "latent relation " + r.name + " has no value for an entity tuple its dirty observations refer to");
    ref[r.name] = have;
  }
  if (!hier) checkirm(*m1, f.rs, all, ref, "after absorbing the file");
  else {
    std::map<int, std::vector<RDef>> by;
    for (auto& r : f.rs) by[m2->relation_to_table(r.name)].push_back(r);
    check(by.size() == m2->irms.size(), "after absorbing the file: an empty component");
    for (auto& [t, rs] : by) checkirm(*m2->irms.at(t), rs, all, ref, "after absorbing the file, component " + str(t));
  }
  done();
}

int main(int argc, char** argv) {
  return run(argc, argv, {
#if !defined(ONLY) || defined(ONLY_C13)
    {"C13", {c13}},
#endif
#if !defined(ONLY) || defined(ONLY_C14)
    {"C14", {c14}},
#endif
#if !defined(ONLY) || defined(ONLY_C15)
    {"C15", {c15}},
#endif
#if !defined(ONLY) || defined(ONLY_C16)
    {"C16", {c16irm, c16hirm}},
#endif
#if !defined(ONLY) || defined(ONLY_C17)
    {"C17", {c17inc}},
#endif
  });
}
