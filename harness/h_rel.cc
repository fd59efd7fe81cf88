// C08 C09 C10 C11 C12: relations, noisy relations, latent values
#include "model.hh"
using namespace md;
using namespace h;

// one case in five is several times larger: many observations per entity and per block
int scale = 1;
void rescale() { scale = ri(0, 4) ? 1 : ri(3, 5); }

template <class T>
std::unique_ptr<World<T>> world(int nnoisy, bool allow_rep) {
  auto w = std::make_unique<World<T>>();
  bool big = scale > 1;
  int nd = ri(1, 3);
  if (!allow_rep && nd < 2) nd = 2;
  if (nnoisy && nd < 2) nd = 3;
  for (int i = 0; i < nd; i++) { w->doms.emplace_back(new Domain("D" + str(i))); w->doms.back()->crp.alpha = big ? pick<double>({0.3, 1}) : pick<double>({1, 0.3, 4}); }
  w->g.seed(rng());
  w->ents = big ? ri(3, 7) : ri(2, 4);
  auto bi = rdoms(ri(1, allow_rep ? 3 : std::min(nd, 2)), nd, allow_rep);
  w->repeated = isrep(bi);
  w->base.reset(new CleanRelation<T>("base", mkd(dspec<T>()), dp(w->doms, bi)));
  op("base " + dspec<T>() + " over " + strv(bi));
  w->nd.push_back(bi);
  for (int k = 0; k < nnoisy; k++) {
    int b = (k > 0 && ri(0, 2) == 0) ? ri(0, k - 1) : -1;
    auto bb = b < 0 ? bi : w->nd[b + 1];
    auto ni = bb;
    if ((int)ni.size() < 3 && ri(0, 2)) {
      int e = ri(0, nd - 1);
      if (allow_rep || !std::count(ni.begin(), ni.end(), e)) ni.push_back(e);
    }
    w->repeated |= isrep(ni);
    std::string es = espec<T>();
    Relation<T>* br = b < 0 ? (Relation<T>*)w->base.get() : w->noisy[b].get();
    w->noisy.emplace_back(new NoisyRelation<T>("N" + str(k), mke(es), dp(w->doms, ni), br));
    w->nd.push_back(ni);
    w->nbase.push_back(b);
    w->nref.emplace_back();
    op("N" + str(k) + " " + es + " of " + (b < 0 ? "base" : "N" + str(b)) + " over " + strv(ni));
  }
  return w;
}

template <class T> bool cando_noisy(World<T>& w, int k, I& it) {
  // items whose base observation exists, not yet present
  auto& bm = w.nbase[k] < 0 ? w.ref : w.nref[w.nbase[k]];
  if (bm.empty()) return false;
  for (int tries = 0; tries < 6; tries++) {
    it = rkey(bm);
    while (it.size() < w.nd[k + 1].size()) it.push_back(ri(0, w.ents - 1));
    if (!w.nref[k].count(it)) return true;
  }
  return false;
}
template <class T> bool depended(World<T>& w, int b, const I& key) {
  for (size_t k = 0; k < w.noisy.size(); k++)
    if (w.nbase[k] == b) for (auto& [q, v] : w.nref[k]) if (I(q.begin(), q.begin() + key.size()) == key) return true;
  return false;
}

// one random operation that adds or removes; true when it changed something
template <class T> bool rop(World<T>& w) {
  int which = ri(-1, (int)w.noisy.size() - 1), act = ri(0, 9);
  if (which < 0) {
    if (act < 6) {
      I it = ritems(w.nd[0].size(), w.ents);
      if (w.ref.count(it)) return false;
      if (act == 0) {
        op("base.sample_and_incorporate " + strv(it));
        auto tc = w.base->clusters.size();
        T v = w.base->sample_and_incorporate(&w.g, it);
        (void)tc;
        w.ref[it] = v;
      } else {
        T v = rval<T>();
        op("base.incorporate " + strv(it) + "=" + vs(v));
        w.base->incorporate(&w.g, it, v);
        w.ref[it] = v;
      }
      return true;
    }
    if (w.ref.empty()) return false;
    I it = rkey(w.ref);
    if (depended(w, -1, it)) return false;
    if (act < 9) {
      op("base.unincorporate " + strv(it));
      w.base->unincorporate(it);
      w.ref.erase(it);
    } else {
      T v = rval<T>();
      op("base.update_value " + strv(it) + "=" + vs(v));
      w.base->update_value(it, v);
      w.ref[it] = v;
    }
    return true;
  }
  auto& n = *w.noisy[which];
  auto& nr = w.nref[which];
  if (act < 5) {
    I it;
    if (!cando_noisy(w, which, it)) return false;
    if (act == 0) {
      op(n.name + ".sample_and_incorporate " + strv(it));
      nr[it] = n.sample_and_incorporate(&w.g, it);
    } else {
      auto& bm = w.nbase[which] < 0 ? w.ref : w.nref[w.nbase[which]];
      T v = ri(0, 1) ? rval<T>() : bm.at(I(it.begin(), it.begin() + w.nd[w.nbase[which] + 1].size()));
      op(n.name + ".incorporate " + strv(it) + "=" + vs(v));
      n.incorporate(&w.g, it, v);
      nr[it] = v;
    }
    return true;
  }
  if (nr.empty()) return false;
  I it = rkey(nr);
  if (depended(w, which, it)) return false;
  if (act < 8) {
    op(n.name + ".unincorporate " + strv(it));
    n.unincorporate(it);
    nr.erase(it);
  } else {
    T v = rval<T>();
    op(n.name + ".update_value " + strv(it) + "=" + vs(v));
    n.update_value(it, v);
    nr[it] = v;
  }
  return true;
}

template <class T> void checknoisy(World<T>& w, int k, const std::string& when) {
  auto& n = *w.noisy[k];
  auto& nr = w.nref[k];
  auto& bm = w.nbase[k] < 0 ? w.ref : w.nref[w.nbase[k]];
  size_t ba = w.nd[w.nbase[k] + 1].size();
  check(n.data.size() == nr.size(), when + ": " + n.name + " stores a wrong number of observations");
  Data<std::pair<T, T>> pairs;
  std::map<I, std::set<I>> b2n;
  for (auto& [it, v] : nr) {
    check(n.data.count(it) && n.data.at(it) == v, when + ": " + n.name + " misses or alters observation " + strv(it));
    I bi(it.begin(), it.begin() + ba);
    pairs[it] = {bm.at(bi), v};
    b2n[bi].insert(it);
  }
  size_t nonempty = 0;
  for (auto& [bi, s] : n.base_to_noisy_items) {
    if (s.empty()) continue;
    nonempty++;
    check(b2n.count(bi), when + ": the clean-to-dirty lookup of " + n.name + " lists an underived observation");
    check(s.size() == b2n[bi].size(), when + ": the clean-to-dirty lookup of " + n.name + " is wrong");
    for (auto& q : b2n[bi]) check(s.contains(q), when + ": the clean-to-dirty lookup of " + n.name + " misses an observation");
  }
  check(nonempty == b2n.size(), when + ": the clean-to-dirty lookup of " + n.name + " misses a clean observation");
  checkrel(n.emission_relation, pairs, when + ", " + n.name + "'s error model", exactstats(n.emission_relation));
}
template <class T> void checkall(World<T>& w, const std::string& when) {
  checkrel(*w.base, w.ref, when);
  for (size_t k = 0; k < w.noisy.size(); k++) checknoisy(w, k, when);
}
template <class T> void fill(World<T>& w, int n) { for (int i = 0; i < n * scale; i++) rop(w); }
template <class T> void hyp(World<T>& w) {
  if (ri(0, 1)) return;
  op("transition_cluster_hparams");
  w.base->transition_cluster_hparams(&w.g, 1);
  for (auto& n : w.noisy) n->transition_cluster_hparams(&w.g, 1);
}

// ---------------------------------------------------------------- C08
template <class T> void c08() {
  begin(std::string("relation history"));
  rescale();
  auto w = world<T>(0, true);
  int n = ri(4, 18) * (scale > 1 ? 2 : 1);
  for (int i = 0; i < n; i++) {
    if (ri(0, 5) == 0) {
      // add then remove restores
      I it = ritems(w->nd[0].size(), w->ents);
      if (!w->ref.count(it)) {
        auto a = snap(*w->base);
        T v = rval<T>();
        op("incorporate+unincorporate " + strv(it) + "=" + vs(v));
        w->base->incorporate(&w->g, it, v);
        w->base->unincorporate(it);
        same(a, snap(*w->base), "after adding and removing an observation");
      }
    } else rop(*w);
    if (ri(0, 9) == 0) hyp(*w);
    checkall(*w, "after the last step");
  }
  done();
}
// ---------------------------------------------------------------- C09
template <class T> void c09() {
  begin(std::string("reassign an entity"));
  rescale();
  auto w = world<T>(ri(0, 2), true);
  fill(*w, ri(6, 20));
  hyp(*w);
  checkall(*w, "before any move");
  for (int m = 0; m < 4; m++) {
    auto& d = *w->doms[ri(0, w->doms.size() - 1)];
    if (d.items.empty()) continue;
    int item = pick(std::vector<int>(d.items.begin(), d.items.end()));
    int cur = d.get_cluster_assignment(item);
    std::vector<int> ts;
    int mx = 0;
    for (auto& [t, s] : d.crp.tables) { if (t != cur) ts.push_back(t); mx = std::max(mx, t); }
    ts.push_back(mx + ri(1, 2));
    int t = pick(ts);
    op("move " + d.name + " entity " + str(item) + " from " + str(cur) + " to " + str(t));
    auto before = snap(*w->base);
    bool back = ri(0, 2) == 0;
    auto mv = [&](int to) {
      if (w->base->data_r.contains(d.name) && w->base->has_observation(d, item)) w->base->set_cluster_assignment_gibbs(d, item, to, &w->g);
      for (auto& n : w->noisy) if (n->get_data_r().contains(d.name) && n->has_observation(d, item)) n->set_cluster_assignment_gibbs(d, item, to, &w->g);
      d.set_cluster_assignment_gibbs(item, to);
    };
    mv(t);
    checkall(*w, "after the move");
    auto after = snap(*w->base);
    // blocks that no moved observation enters or leaves are untouched
    for (auto& [z, p] : before.blocks) {
      bool touched = false;
      for (auto& [k, v] : w->ref) {
        bool mine = false;
        I z0, z1;
        for (size_t i = 0; i < k.size(); i++) {
          Domain* dd = w->base->domains[i];
          bool is = dd == &d && k[i] == item;
          mine |= is;
          z1.push_back(dd->crp.assignments.at(k[i]));
          z0.push_back(is ? cur : z1.back());
        }
        touched |= mine && (z0 == z || z1 == z);
      }
      if (!touched) {
        check(after.blocks.count(z), "a block without moved observations disappeared");
        check(after.blocks[z] == p, "a block without moved observations changed");
        check(after.ptr[z] == before.ptr[z], "a block without moved observations was rebuilt");
      } else if (after.blocks.count(z) && after.ptr[z] == before.ptr[z])
        check(after.blocks[z].second == p.second, "moving observations changed a block's hyperparameters");
    }
    if (back) {
      op("move back");
      if (!d.crp.tables.contains(cur)) {}
      mv(cur);
      checkall(*w, "after moving back");
      same(before, snap(*w->base), "after moving the entity back", false);
    }
  }
  done();
}
// ---------------------------------------------------------------- C10
template <class T>
double gainref(const CleanRelation<T>& r, const Domain& d, int item, int table, bool exact) {
  // rebuilt from the observations: score with the entity's observations at 'table' minus score without them
  int cur = d.crp.assignments.at(item);
  std::map<I, std::vector<T>> rest, moved, full;
  for (auto& [k, v] : r.data) {
    I z;
    bool mine = false;
    I zc;
    for (size_t i = 0; i < k.size(); i++) {
      Domain* dd = r.domains[i];
      bool is = dd->name == d.name && k[i] == item;
      mine |= is;
      zc.push_back(dd->crp.assignments.at(k[i]));
      z.push_back(is ? table : zc.back());
    }
    if (mine) moved[z].push_back(v); else rest[z].push_back(v);
    full[zc].push_back(v);
  }
  auto mk = [&](const I& z) {
    std::mt19937 g(1);
    auto* x = r.make_new_distribution(&g);
    if (r.clusters.count(z)) copyhyp<T>(x, r.clusters.at(z));
    return std::unique_ptr<Distribution<T>>(x);
  };
  double tot = 0;
  for (auto& [z, xs] : moved) {
    auto dist = mk(z);
    if (exact) {
      for (auto&& x : rest[z]) dist->incorporate(x);
      double a = dist->logp_score();
      for (auto&& x : xs) dist->incorporate(x);
      tot += dist->logp_score() - a;
    } else if (table == cur) {
      for (auto&& x : full[z]) dist->incorporate(x);
      for (auto&& x : xs) { dist->unincorporate(x); tot += dist->logp(x); dist->incorporate(x); }
    } else {
      for (auto&& x : full[z]) dist->incorporate(x);
      for (auto&& x : xs) tot += dist->logp(x);
    }
  }
  return tot;
}
template <class T, class W> void c10rel(CleanRelation<T>& r, W& w, bool rep) {
  for (auto& dm : w.doms) {
    auto& d = *dm;
    if (!r.data_r.contains(d.name)) continue;
    std::vector<int> its;
    for (int x : d.items) if (r.has_observation(d, x)) its.push_back(x);
    if (its.empty()) continue;
    int item = pick(its);
    auto tw = d.tables_weights_gibbs(item);
    std::vector<int> tables;
    for (auto& [t, x] : tw) tables.push_back(t);
    if (ri(0, 1)) std::reverse(tables.begin(), tables.end());
    op("score " + r.name + " " + d.name + " entity " + str(item) + " at " + strv(tables));
    auto a = snap(r);
    auto lp = r.logp_gibbs_exact(d, item, tables, &w.g);
    same(a, snap(r), "after logp_gibbs_exact");
    check(lp.size() == tables.size(), "one log probability per table expected");
    bool ex = exactstats(r);
    if (!rep && ex)
      for (size_t i = 0; i < tables.size(); i++) near(lp[i], gainref(r, d, item, tables[i], true), "exact data probability of table " + str(tables[i]), 1e-5);
    for (int t : tables) {
      double x = r.logp_gibbs_approx(d, item, t, &w.g);
      same(a, snap(r), "after logp_gibbs_approx");
      if (ex) near(x, gainref(r, d, item, t, false), "approximate data probability of table " + str(t), 1e-5);
    }
  }
}
template <class T> void c10() {
  begin("score possible moves");
  rescale();
  bool allow = ri(0, 3) == 0;
  auto w = world<T>(ri(0, 2), allow);
  fill(*w, ri(5, 22));
  hyp(*w);
  c10rel<T>(*w->base, *w, w->repeated);
  // sometimes_categorical: recorded finding (its soft counts depend on the order of absorption)
  if constexpr (!std::is_same_v<T, int>)
    for (auto& n : w->noisy) c10rel<std::pair<T, T>>(n->emission_relation, *w, w->repeated);
  // other queries
  auto& r = *w->base;
  auto a = snap(r);
  size_t ni = 0;
  for (auto& d : w->doms) ni += d->items.size();
  for (int q = 0; q < 4; q++) {
    I it = ritems(w->nd[0].size(), w->ents + 1);
    T v = rval<T>();
    op("query " + strv(it) + " " + vs(v));
    double lp = r.logp(it, v, &w->g);
    bool known = true;
    for (size_t i = 0; i < it.size(); i++) known &= r.domains[i]->items.contains(it[i]);
    if (known) near(lp, r.cluster_or_prior_logp_from_items(&w->g, it, v), "log probability of an observation of known entities");
    check(lp < 1e-9 || std::is_same_v<T, double>, "a log probability above zero");
    double cp = r.cluster_or_prior_logp_from_items(&w->g, it, v);
    (void)cp;
    T s = r.sample_at_items(&w->g, it);
    (void)s;
    if (known) r.nearest(&w->g, v, it);
    same(a, snap(r), "after a query");
  }
  size_t nj = 0;
  for (auto& d : w->doms) nj += d->items.size();
  check(ni == nj, "a query changed a domain");
  checkall(*w, "after the queries");
  done();
}
// ---------------------------------------------------------------- C11
template <class T> void c11() {
  begin("noisy relation history");
  rescale();
  auto w = world<T>(ri(1, 3), true);
  fill(*w, 4);
  int n = ri(6, 24);
  if (scale > 1) fill(*w, 12);
  for (int i = 0; i < n; i++) {
    if (ri(0, 6) == 0) {
      int k = ri(0, w->noisy.size() - 1);
      I it;
      if (cando_noisy(*w, k, it)) {
        auto& nn = *w->noisy[k];
        auto a = snap(nn.emission_relation);
        T v = rval<T>();
        auto& bm = w->nbase[k] < 0 ? w->ref : w->nref[w->nbase[k]];
        T bv = bm.at(I(it.begin(), it.begin() + w->nd[w->nbase[k] + 1].size()));
        op(nn.name + " score and add+remove " + strv(it) + "=" + vs(v));
        // predicted before adding
        double lp = nn.cluster_or_prior_logp_from_items(&w->g, it, v);
        bool known = true;
        for (size_t q = 0; q < it.size(); q++) known &= nn.domains[q]->items.contains(it[q]);
        if (known) {
          I z = nn.get_cluster_assignment(it);
          std::unique_ptr<Distribution<std::pair<T, T>>> pr(nn.emission_relation.make_new_distribution(&w->g));
          double e = nn.emission_relation.clusters.count(z) ? nn.emission_relation.clusters.at(z)->logp({bv, v}) : pr->logp({bv, v});
          near(lp, e, "the score of a dirty value given its clean value");
          near(nn.logp(it, v, &w->g), e, "the log probability of a dirty value given its clean value");
        }
        nn.incorporate(&w->g, it, v);
        check(nn.get_value(it) == v && nn.get_base_value(it) == bv, "the value just added reads back differently");
        nn.unincorporate(it);
        if (exactstats(nn.emission_relation)) same(a, snap(nn.emission_relation), "after adding and removing a dirty value");
      }
    } else if (ri(0, 7) == 0) {
      auto& d = *w->doms[ri(0, w->doms.size() - 1)];
      if (!d.items.empty()) {
        int item = pick(std::vector<int>(d.items.begin(), d.items.end())), cur = d.get_cluster_assignment(item), t = cur + 1;
        op("move " + d.name + " entity " + str(item) + " to " + str(t));
        if (w->base->data_r.contains(d.name) && w->base->has_observation(d, item)) w->base->set_cluster_assignment_gibbs(d, item, t, &w->g);
        for (auto& n : w->noisy) if (n->get_data_r().contains(d.name) && n->has_observation(d, item)) n->set_cluster_assignment_gibbs(d, item, t, &w->g);
        d.set_cluster_assignment_gibbs(item, t);
      }
    } else rop(*w);
    checkall(*w, "after the last step");
    double sc = 0;
    for (auto& n : w->noisy) { sc = n->emission_relation.logp_score(); near(n->logp_score(), sc, "a noisy relation's score is its error model's score"); }
  }
  done();
}
// ---------------------------------------------------------------- C12
template <class T>
double jointref(World<T>& w, int b, const I& bi, const T* v) {
  // score of the base relation's block and the dependent error-model blocks, rebuilt with the observation at bi set to *v (or left out)
  double tot = 0;
  auto score = [&](auto& rel, auto& data) {
    using U = typename std::decay_t<decltype(data)>::mapped_type;
    std::map<I, std::vector<U>> bl;
    for (auto& [k, x] : data) { I z; for (size_t i = 0; i < k.size(); i++) z.push_back(rel.domains[i]->crp.assignments.at(k[i])); bl[z].push_back(x); }
    for (auto& [z, d] : rel.clusters) bl[z];
    for (auto& [z, xs] : bl) {
      std::mt19937 g(1);
      std::unique_ptr<Distribution<U>> d(rel.make_new_distribution(&g));
      if (rel.clusters.count(z)) copyhyp<U>(d.get(), rel.clusters.at(z));
      for (auto&& x : xs) d->incorporate(x);
      tot += d->logp_score();
    }
  };
  auto pairs = [&](int k, bool repl) {
    Data<std::pair<T, T>> p;
    auto& bm = w.nbase[k] < 0 ? w.ref : w.nref[w.nbase[k]];
    size_t ba = w.nd[w.nbase[k] + 1].size();
    for (auto& [it, x] : w.nref[k]) {
      I q(it.begin(), it.begin() + ba);
      if (repl && q == bi) { if (v) p[it] = {*v, x}; }
      else p[it] = {bm.at(q), x};
    }
    return p;
  };
  if (b < 0) {
    auto d = w.ref;
    if (v) d[bi] = *v; else d.erase(bi);
    score(*w.base, d);
  } else {
    auto p = pairs(b, false);
    auto& bm = w.nbase[b] < 0 ? w.ref : w.nref[w.nbase[b]];
    if (v) p[bi] = {bm.at(I(bi.begin(), bi.begin() + w.nd[w.nbase[b] + 1].size())), *v}; else p.erase(bi);
    score(w.noisy[b]->emission_relation, p);
  }
  for (size_t k = 0; k < w.noisy.size(); k++) if (w.nbase[k] == b) { auto p = pairs(k, true); score(w.noisy[k]->emission_relation, p); }
  return tot;
}
template <class T> void c12() {
  begin("latent value moves");
  rescale();
  auto w = world<T>(ri(1, 3), false);
  fill(*w, ri(10, 26));
  hyp(*w);
  for (int m = 0; m < 4; m++) {
    int b = -1;
    if (w->noisy.size() > 1 && ri(0, 3) == 0) for (size_t k = 1; k < w->noisy.size(); k++) if (w->nbase[k] >= 0) b = w->nbase[k];
    auto& bm = b < 0 ? w->ref : w->nref[b];
    if (bm.empty()) return;
    I bi = rkey(bm);
    Relation<T>* br = b < 0 ? (Relation<T>*)w->base.get() : w->noisy[b].get();
    std::unordered_map<std::string, NoisyRelation<T>*> nr;
    for (size_t k = 0; k < w->noisy.size(); k++) if (w->nbase[k] == b) nr[w->noisy[k]->name] = w->noisy[k].get();
    bool has = depended(*w, b, bi);
    T old = bm.at(bi);
    if (ri(0, 1) || !has) {
      op("transition_latent_value of " + std::string(b < 0 ? "base" : w->noisy[b]->name) + strv(bi));
      transition_latent_value(&w->g, bi, br, nr);
      T nv = br->get_value(bi);
      op("now " + vs(nv));
      bm[bi] = nv;
      checkall(*w, "after the latent value move");
    } else if (!std::is_same_v<T, int>) {
      std::vector<T> cands;
      for (int c = ri(1, 3); c >= 0; c--) cands.push_back(c == 1 ? old : br->nearest(&w->g, rval<T>(), bi));
      op("weigh candidates for " + std::string(b < 0 ? "base" : w->noisy[b]->name) + strv(bi));
      for (auto&& c : cands) op(vs(T(c)));
      double base = jointref(*w, b, bi, (const T*)nullptr);
      auto obs = unincorporate_and_store_values(bi, br, nr);
      for (auto& [name, o] : obs) for (auto& [it, x] : o) {
        int k = name[1] - '0';
        check(w->nref[k].count(it) && w->nref[k][it] == x, "a stored dirty value differs");
      }
      auto lp = latent_values_incremental_logp(bi, cands, obs, br, nr);
      check(lp.size() == cands.size(), "one weight per candidate expected");
      std::vector<double> diff;
      for (size_t i = 0; i < cands.size(); i++) { T c = cands[i]; diff.push_back(lp[i] - (jointref(*w, b, bi, &c) - base)); }
      for (size_t i = 1; i < cands.size(); i++) check(std::fabs(diff[i] - diff[0]) < 1e-5 * (1 + std::fabs(lp[i])), "candidate weights are not the joint probabilities (candidate " + str(i) + " off by " + str(diff[i] - diff[0]) + " against candidate 0)");
      choose_and_incorporate_value(&w->g, bi, cands, lp, obs, br, nr);
      T nv = br->get_value(bi);
      bool in = false;
      for (auto&& c : cands) in |= T(c) == nv;
      check(in, "the new clean value is none of the candidates");
      bm[bi] = nv;
      checkall(*w, "after choosing a latent value");
    }
    if (ri(0, 3) == 0) { rop(*w); checkall(*w, "after the last step"); }
  }
  done();
}

#define ALL(f) f<bool>, f<double>, f<int>, f<std::string>
int main(int argc, char** argv) {
  return run(argc, argv, {
#if !defined(ONLY) || defined(ONLY_C08)
    {"C08", {ALL(c08)}},
#endif
#if !defined(ONLY) || defined(ONLY_C09)
    {"C09", {ALL(c09)}},
#endif
#if !defined(ONLY) || defined(ONLY_C10)
    {"C10", {ALL(c10)}},
#endif
#if !defined(ONLY) || defined(ONLY_C11)
    {"C11", {ALL(c11)}},
#endif
#if !defined(ONLY) || defined(ONLY_C12)
    {"C12", {ALL(c12)}},
#endif
  });
}
