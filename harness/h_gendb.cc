// C20 C21 C22 C26: cleaning schemas, the generated database, row ingestion
#include "model.hh"
#include "hirm.hh"
#include "gendb.hh"
#include "pclean/pclean_lib.hh"
#include "pclean/get_joint_relations.hh"
#include "pclean/io.hh"
#include "util_io.hh"
using namespace md;
using namespace h;
using OV = ObservationVariant;

// ---------------------------------------------------------------- random schemas
struct SGen { int maxcls = 4, maxref = 2, maxattr = 2; bool strings = true; bool everyclass_attr = false; bool tree = false; bool full = false; };
static PCleanVariable svar(const std::string& n, bool strings) {
  ScalarVar s;
  int t = ri(0, strings ? 4 : 2);
  if (t == 0) s.joint_name = "bool";
  if (t == 1) s.joint_name = "real";
  if (t == 2) { s.joint_name = "categorical"; s.params["k"] = "3"; }
  if (t == 3) { s.joint_name = "stringcat"; s.params["strings"] = "aa bb cab"; }
  if (t == 4) { s.joint_name = "string"; s.params["maxlength"] = "6"; }
  PCleanVariable v; v.name = n; v.spec = s;
  return v;
}
static bool digitnames = false;
static std::string cname(int i) { if (digitnames) return std::vector<std::string>{"T", "T1", "T11", "T2", "T21"}[i]; return std::string(1, "TQMCZ"[i]); }   // names whose order differs from the index order
// all paths (class index sequence is implied) from class i to scalar attributes
static void paths(const PCleanSchema& S, const std::string& c, std::vector<std::string> pre, std::vector<std::vector<std::string>>& out) {
  for (auto& [n, v] : S.classes.at(c).vars) {
    auto p = pre; p.push_back(n);
    if (auto* cv = std::get_if<ClassVar>(&v.spec)) paths(S, cv->class_name, p, out);
    else out.push_back(p);
  }
}
static bool mkschema(PCleanSchema& S, const SGen& G) {
  digitnames = ri(0, 2) == 0;
  int n = ri(1, G.maxcls);
  std::string txt;
  int free = 1;
  for (int i = 0; i < n; i++) {
    PCleanClass c; c.name = cname(i);
    txt += "class " + c.name + "{";
    int na = ri(G.everyclass_attr && i ? 1 : 0, G.maxattr), nr = i + 1 < n ? ri(0, G.maxref) : 0;
    if (i == 0 && n > 1 && nr == 0) nr = 1;
    if (G.tree && i && free <= i) break;
    if ((i + 1 == n || (G.tree && free >= n && nr)) && na == 0) na = 1;
    for (int k = 0; k < na; k++) { std::string v = std::string(1, "bny"[k]); c.vars[v] = svar(v, G.strings); txt += v + "~" + std::get<ScalarVar>(c.vars[v].spec).joint_name + " "; }
    for (int k = 0; k < nr; k++) { std::string v = std::string(1, "akx"[k]); PCleanVariable pv; pv.name = v; if (G.tree && free >= n) break; ClassVar cv{cname(G.tree ? free++ : ri(i + 1, n - 1))}; txt += v + "->" + cv.class_name + " "; pv.spec = cv; c.vars[v] = pv; }
    txt += "} ";
    S.classes[c.name] = c;
  }
  S.query.record_class = cname(0);
  std::vector<std::vector<std::string>> ps;
  paths(S, cname(0), {}, ps);
  if (ps.empty()) return false;
  int nq = G.full ? ps.size() : ri(1, 4);
  std::set<std::vector<std::string>> used;
  for (int q = 0; q < nq; q++) {
    auto p = G.full ? ps[q] : pick(ps);
    if (p.size() == 1 && used.count(p)) continue;
    used.insert(p);
    QueryField f; f.name = std::string("q") + "QwWeEaZrRtTyYuU"[q % 15] + (q < 15 ? "" : str(q)); f.class_path = p;
    S.query.fields[f.name] = f;
    txt += f.name + "=";
    for (auto& x : p) txt += x + ".";
    txt += " ";
  }
  op(txt);
  return true;
}

// ---------------------------------------------------------------- the independent reading of a schema
struct Tree { std::vector<std::string> dom; std::map<int, std::map<std::string, int>> ref; };
static void expand(const PCleanSchema& S, const std::string& c, Tree& t) {
  std::map<std::string, int> mine;
  for (auto& [n, v] : S.classes.at(c).vars)
    if (auto* cv = std::get_if<ClassVar>(&v.spec)) { expand(S, cv->class_name, t); mine[n] = t.dom.size() - 1; }
  t.dom.push_back(c);
  if (!mine.empty()) t.ref[t.dom.size() - 1] = mine;
}
struct ERel { Tree t; std::string base; bool observed; const ScalarVar* var; std::string attr; };
static std::map<std::string, ERel> expected(const PCleanSchema& S, bool ofe, bool clean) {
  std::map<std::string, ERel> E;
  for (auto& [cn, c] : S.classes)
    for (auto& [vn, v] : c.vars)
      if (auto* s = std::get_if<ScalarVar>(&v.spec)) {
        ERel e; expand(S, cn, e.t); e.observed = false; e.var = s; e.attr = cn + ":" + vn;
        E[e.attr] = e;
      }
  for (auto& [qn, f] : S.query.fields) {
    std::vector<std::string> cls{S.query.record_class};
    for (size_t i = 0; i + 1 < f.class_path.size(); i++) cls.push_back(std::get<ClassVar>(S.classes.at(cls.back()).vars.at(f.class_path[i]).spec).class_name);
    std::string b = cls.back() + ":" + f.class_path.back();
    auto find = [&]() -> const ERel* { auto it = E.find(b); return it == E.end() ? nullptr : &it->second; };
    if (f.class_path.size() == 1) {
      ERel e = *find();
      e.observed = true;
      if (clean) E.erase(b); else e.base = b;
      E[qn] = e;
      continue;
    }
    ERel e = *find();
    for (int i = (int)cls.size() - 2; i >= 0; i--) {
      e.t.dom.push_back(cls[i]);
      e.t.ref[e.t.dom.size() - 1] = {{f.class_path[i], (int)e.t.dom.size() - 2}};
      if (ofe && i) continue;
      e.base = ofe ? b : i == (int)cls.size() - 2 ? b : cls[i + 1] + "::" + qn;
      e.observed = i == 0;
      E[i == 0 ? qn : cls[i] + "::" + qn] = e;
    }
  }
  return E;
}
static std::string refs(const std::map<int, std::map<std::string, int>>& m) {
  std::string s;
  for (auto& [i, k] : m) { if (k.empty()) continue; s += str(i) + "{"; for (auto& [f, j] : k) s += f + ":" + str(j) + " "; s += "}"; }
  return s;
}
struct Joint { const char* name; const char* d; const char* e; };
static void checkschema(const PCleanSchema& S, GenDB& g, bool ofe, bool clean, std::map<std::string, ERel>& E) {
  E = expected(S, ofe, clean);
  for (auto& [cn, c] : S.classes) {
    Tree t; expand(S, cn, t);
    check(g.domains.contains(cn) && g.domains.at(cn) == t.dom, "the classes reached from " + cn + " are listed as " + strv(g.domains[cn]) + " instead of " + strv(t.dom));
    std::string a = g.class_reference_indices.contains(cn) ? refs(g.class_reference_indices.at(cn)) : "";
    check(a == refs(t.ref), "the reference positions of class " + cn + " are " + a + " instead of " + refs(t.ref));
  }
  for (auto& [n, r] : g.hirm->schema) check(E.count(n), "relation " + n + " is not an attribute or queried attribute of the schema");
  std::map<std::string, std::multiset<std::string>> byclass;
  for (auto& [n, e] : E) {
    check(g.hirm->schema.contains(n), "there is no relation " + n);
    auto& tr = g.hirm->schema.at(n);
    auto dom = std::visit([](auto& t) { return t.domains; }, tr);
    check(dom == e.t.dom, "relation " + n + " ranges over " + strv(dom) + " instead of " + strv(e.t.dom));
    check(std::visit([](auto& t) { return t.is_observed; }, tr) == e.observed, "relation " + n + (e.observed ? " is not marked observed" : " is marked observed"));
    auto* nr = std::get_if<T_noisy_relation>(&tr);
    check((nr != nullptr) == !e.base.empty(), "relation " + n + (nr ? " is an error-model relation" : " is not an error-model relation"));
    if (nr) check(nr->base_relation == e.base, "relation " + n + " observes " + nr->base_relation + " instead of " + e.base);
    std::string a = g.relation_reference_indices.contains(n) ? refs(g.relation_reference_indices.at(n)) : "";
    check(a == refs(e.t.ref), "the reference positions of relation " + n + " are " + a + " instead of " + refs(e.t.ref));
    static const std::map<std::string, std::pair<std::string, std::string>> J = {{"bool", {"bernoulli", "sometimes_bitflip"}}, {"categorical", {"categorical", "sometimes_categorical"}}, {"real", {"normal", "sometimes_gaussian"}}, {"string", {"bigram", "bigram"}}, {"stringcat", {"stringcat", "bigram"}}};
    auto& j = J.at(e.var->joint_name);
    if (nr) {
      EmissionSpec x(j.second, e.var->params);
      check(nr->emission_spec.emission == x.emission && nr->emission_spec.emission_args == x.emission_args && nr->emission_spec.observation_type == x.observation_type, "relation " + n + " has the wrong error model");
    } else {
      DistributionSpec x(j.first, e.var->params);
      auto& y = std::get<T_clean_relation>(tr).distribution_spec;
      check(y.distribution == x.distribution && y.distribution_args == x.distribution_args && y.observation_type == x.observation_type, "relation " + n + " has the wrong model");
    }
    byclass[e.t.dom.back()].insert(n);
  }
  for (auto& [c, ns] : byclass) {
    std::multiset<std::string> have;
    if (g.class_to_relations.contains(c)) for (auto& x : g.class_to_relations.at(c)) have.insert(x);
    check(have == ns, "the relations listed for class " + c + " are not the ones whose primary entity is of that class");
  }
}
static void c20() {
  begin("schema");
  PCleanSchema S;
  bool ofe = ri(0, 1), clean = ri(0, 2) > 0;
  op(std::string(ofe ? "final emissions only" : "all emissions") + (clean ? ", clean records" : ", noisy records"));
  if (!mkschema(S, {5, 3, 2, true, false})) return;
  std::mt19937 g(ri(0, 1 << 30));
  GenDB db(&g, S, ofe, clean);
  std::map<std::string, ERel> E;
  checkschema(S, db, ofe, clean, E);
  // base positions: projecting the items of an error-model relation gives the items of its base
  for (auto& [n, e] : E) if (!e.base.empty()) {
    T_items it;
    for (size_t i = 0; i < e.t.dom.size(); i++) it.push_back(100 + i);
    T_items want(it.begin(), it.begin() + E.at(e.base).t.dom.size());
    std::visit([&](auto r) {
      using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
      auto* nr = dynamic_cast<NoisyRelation<T>*>(r);
      check(nr, "relation " + n + " is not built as an error-model relation");
      check(nr->get_base_items(it) == want, "relation " + n + " reads its base at " + strv(nr->get_base_items(it)) + " instead of " + strv(want));
      check(nr->base_relation == std::get<Relation<T>*>(db.hirm->get_relation(e.base)), "relation " + n + " is attached to another base");
    }, db.hirm->get_relation(n));
  }
  done(S.classes.size() > 1);
}
// the text form of a schema reads back as the schema
static std::string ws() { return ri(0, 5) ? " " : pick<std::string>({"  ", "\t", " \t "}); }
static std::string junk() { return ri(0, 6) ? "" : pick<std::string>({"  # a comment", " #", "   "}); }
static void c20text() {
  begin("schema text");
  PCleanSchema S;
  if (!mkschema(S, {5, 3, 2, true, false})) return;
  std::string t;
  auto blank = [&] { while (ri(0, 3) == 0) t += pick<std::string>({"\n", "# note\n", "\n\n"}); };
  auto query = [&] {
    t += "observe" + junk() + "\n";
    int from = ri(0, 1);
    if (!from) t += ws() + "from" + ws() + S.query.record_class + junk() + "\n";
    for (auto& [q, f] : S.query.fields) {
      t += ws();
      for (size_t i = 0; i < f.class_path.size(); i++) t += (i ? "." : "") + f.class_path[i];
      t += ws() + "as" + ws() + q + junk() + "\n";
      if (ri(0, 4) == 0) t += "  # a remark\n";
    }
    if (from) t += ws() + "from" + ws() + S.query.record_class + junk() + "\n";
    t += "\n";
  };
  bool first = ri(0, 3) == 0;
  blank();
  if (first) query();
  std::vector<std::string> cs;
  for (auto& [c, _] : S.classes) cs.push_back(c);
  std::shuffle(cs.begin(), cs.end(), rng);
  for (auto& cn : cs) {
    blank();
    t += "class" + ws() + cn + junk() + "\n";
    std::vector<std::string> vs;
    for (auto& [v, _] : S.classes[cn].vars) vs.push_back(v);
    std::shuffle(vs.begin(), vs.end(), rng);
    for (auto& vn : vs) {
      auto& v = S.classes[cn].vars[vn];
      if (ri(0, 6) == 0) t += "  # inside the class\n";
      t += ws() + vn + ws() + "~" + ws();
      if (auto* cv = std::get_if<ClassVar>(&v.spec)) t += cv->class_name;
      else {
        auto& sv = std::get<ScalarVar>(v.spec);
        for (int i = ri(0, 2); i > 0; i--) sv.params[std::string("p") + str(i)] = pick<std::string>({"7", "0.5", "-2", "word", "two words", ":"});
        t += sv.joint_name;
        if (!sv.params.empty() || ri(0, 3) == 0) {
          t += "(";
          bool c = false;
          for (auto& [k, x] : sv.params) {
            if (c) t += "," + std::string(ri(0, 1) ? " " : "");
            c = true;
            bool q = x.find(' ') != std::string::npos || x == ":" || x[0] == '-' || ri(0, 1);
            t += k + "=" + (q ? "\"" + x + "\"" : x);
          }
          t += ")";
        }
      }
      t += junk() + "\n";
    }
    t += "\n";
  }
  if (!first) query();
  { std::string e; for (char c : t) { if (c == 10) e += "\\n"; else if (c == 9) e += "\\t"; else e += c; } op(e); }
  std::istringstream in(t);
  PCleanSchema R;
  check(read_schema(in, &R), "read_schema rejects this schema");
  check(R.classes.size() == S.classes.size(), "read_schema finds " + str(R.classes.size()) + " classes");
  for (auto& [cn, c] : S.classes) {
    check(R.classes.contains(cn) && R.classes.at(cn).name == cn, "read_schema misses class " + cn);
    auto& rc = R.classes.at(cn);
    check(rc.vars.size() == c.vars.size(), "class " + cn + " has " + str(rc.vars.size()) + " fields");
    for (auto& [vn, v] : c.vars) {
      check(rc.vars.contains(vn) && rc.vars.at(vn).name == vn, "class " + cn + " misses field " + vn);
      auto& rv = rc.vars.at(vn);
      check(rv.spec.index() == v.spec.index(), cn + "." + vn + " has the wrong kind");
      if (auto* cv = std::get_if<ClassVar>(&v.spec)) check(std::get<ClassVar>(rv.spec).class_name == cv->class_name, cn + "." + vn + " refers to another class");
      else {
        auto& a = std::get<ScalarVar>(v.spec); auto& b = std::get<ScalarVar>(rv.spec);
        check(a.joint_name == b.joint_name, cn + "." + vn + " has another distribution");
        check(a.params == b.params, cn + "." + vn + " has other parameters");
      }
    }
  }
  check(R.query.record_class == S.query.record_class, "the record class is read as " + R.query.record_class);
  check(R.query.fields.size() == S.query.fields.size(), "another number of query fields is read");
  for (auto& [q, f] : S.query.fields) check(R.query.fields.contains(q) && R.query.fields.at(q).name == q && R.query.fields.at(q).class_path == f.class_path, "query field " + q + " has another path");
  done();
}
static void c20joint() {
  begin("attribute kinds");
  static const std::vector<Joint> js = {{"bool", "bernoulli", "sometimes_bitflip"}, {"categorical", "categorical", "sometimes_categorical"}, {"real", "normal", "sometimes_gaussian"}, {"string", "bigram", "bigram"}, {"stringcat", "stringcat", "bigram"}, {"typo_int", "string_skellam", "bigram"}, {"typo_nat", "string_nat", "bigram"}, {"typo_real", "string_normal", "bigram"}};
  auto& j = pick(js);
  ScalarVar s; s.joint_name = j.name;
  if (s.joint_name == "categorical") s.params["k"] = str(ri(2, 5));
  if (s.joint_name == "stringcat") s.params["strings"] = "a b";
  op(j.name);
  std::vector<std::string> d;
  for (int i = ri(1, 3); i > 0; i--) d.push_back(cname(ri(0, 4)));
  auto c = get_distribution_relation(s, d);
  auto n = get_emission_relation(s, d, "Base:x");
  DistributionSpec a(j.d, s.params); EmissionSpec b(j.e, s.params);
  check(c.domains == d && n.domains == d && n.base_relation == "Base:x", std::string(j.name) + ": wrong domains or base");
  check(!c.is_observed && !n.is_observed, std::string(j.name) + ": marked observed");
  check(c.distribution_spec.distribution == a.distribution && c.distribution_spec.distribution_args == a.distribution_args && c.distribution_spec.observation_type == a.observation_type, std::string(j.name) + ": wrong model");
  check(n.emission_spec.emission == b.emission && n.emission_spec.emission_args == b.emission_args && n.emission_spec.observation_type == b.observation_type, std::string(j.name) + ": wrong error model");
  done();
}

// ---------------------------------------------------------------- the state of a database
struct DB {
  PCleanSchema S;
  std::unique_ptr<GenDB> g;
  std::map<std::string, ERel> E;
  std::mt19937 r;
  std::map<int, std::map<std::string, OV>> rows;   // what was ingested
};
static std::string rcls(const PCleanSchema& S, const std::string& c, const std::string& f) { return std::get<ClassVar>(S.classes.at(c).vars.at(f).spec).class_name; }
static void fill(DB& D, const Tree& t, int ind, int item, T_items& out, const std::string& when) {
  out[ind] = item;
  auto it = t.ref.find(ind);
  if (it == t.ref.end()) return;
  for (auto& [f, j] : it->second) {
    auto& rv = D.g->reference_values.at(t.dom[ind]);
    auto k = rv.find({f, item});
    check(k != rv.end(), when + ": entity " + str(item) + " of class " + t.dom[ind] + " has no stored reference " + f);
    fill(D, t, j, k->second, out, when);
  }
}
using RelData = std::map<std::string, std::map<I, OV>>;
static RelData reldata(DB& D) {
  RelData m;
  for (auto& [n, e] : D.E) std::visit([&](auto r) { m[n]; for (auto& [k, v] : r->get_data()) m[n][k] = v; }, D.g->hirm->get_relation(n));
  return m;
}
static void consistent(DB& D, const std::string& when, bool strict_domains = true) {
  GenDB& g = *D.g;
  // the stored references and the clustering of the referenced entities agree
  std::map<std::string, std::map<int, int>> want;                 // class -> reference id -> entity
  std::map<std::string, std::map<int, int>> cnt;
  std::set<std::pair<std::string, int>> live;                     // entities reached by a row
  for (auto& [c, m] : g.reference_values)
    for (auto& [k, v] : m) {
      check(D.S.classes.contains(c) && D.S.classes.at(c).vars.contains(k.first), when + ": a reference of an unknown field is stored");
      check(c == D.S.query.record_class || g.entity_crps.at(c).tables.contains(k.second), when + ": entity " + str(k.second) + " of class " + c + " has a reference but nothing refers to it");
      auto rc = rcls(D.S, c, k.first);
      int id = g.get_reference_id(c, k.first, k.second);
      check(!want[rc].count(id), when + ": two references share one identifier");
      want[rc][id] = v;
      cnt[rc][v]++;
    }
  for (auto& [c, crp] : g.entity_crps) {
    check(crp.N == (int)want[c].size(), when + ": the clustering of class " + c + " counts " + str(crp.N) + " references but " + str(want[c].size()) + " are stored");
    check(crp.assignments.size() == want[c].size(), when + ": the clustering of class " + c + " has other members than the stored references");
    for (auto& [id, e] : want[c]) {
      check(crp.assignments.contains(id), when + ": a stored reference to class " + c + " is not in its clustering");
      check(crp.assignments.at(id) == e, when + ": the clustering of class " + c + " places a reference at entity " + str(crp.assignments.at(id)) + " but entity " + str(e) + " is stored");
    }
    check(crp.tables.size() == cnt[c].size(), when + ": the clustering of class " + c + " has other entities than the stored references");
    for (auto& [e, n] : cnt[c]) check(crp.tables.contains(e) && (int)crp.tables.at(e).size() == n, when + ": entity " + str(e) + " of class " + c + " has a wrong reference count");
  }
  // every stored observation sits under the tuple given by the reference chain of its primary entity
  auto data = reldata(D);
  for (auto& [n, e] : D.E) {
    auto irm = g.hirm->irms.at(g.hirm->relation_to_table(n));
    for (auto& [k, v] : data.at(n)) {
      check(k.size() == e.t.dom.size(), when + ": relation " + n + " stores a tuple of the wrong length");
      check(e.t.dom.back() == D.S.query.record_class || g.entity_crps.at(e.t.dom.back()).tables.contains(k.back()), when + ": relation " + n + " keeps a value of entity " + str(k.back()) + " that nothing refers to");
      T_items w(k.size(), -777);
      fill(D, e.t, k.size() - 1, k.back(), w, when + ": relation " + n);
      check(w == k, when + ": relation " + n + " stores " + strv(k) + " but the references of entity " + str(k.back()) + " give " + strv(w));
      for (size_t i = 0; i < k.size(); i++) check(irm->domains.at(e.t.dom[i])->items.contains(k[i]), when + ": an entity of relation " + n + " is not clustered in its component");
      if (!e.base.empty()) {
        I b(k.begin(), k.begin() + D.E.at(e.base).t.dom.size());
        check(data.at(e.base).count(b), when + ": the attribute that " + n + strv(k) + " observes is not stored");
      }
    }
  }
  // a component clusters only entities it has data about
  if (strict_domains) for (auto& [code, irm] : g.hirm->irms) for (auto& [dn, d] : irm->domains) for (int e : d->items)
    check(irm->has_observation(dn, e), when + ": entity " + str(e) + " of class " + dn + " is clustered in a component that has no data about it");
  // every ingested value is stored exactly once under its row
  for (auto& [q, f] : D.S.query.fields) {
    std::map<int, OV> got;
    for (auto& [k, v] : data.at(q)) { check(!got.count(k.back()), when + ": field " + q + " of row " + str(k.back()) + " is stored twice"); got[k.back()] = v; }
    for (auto& [id, row] : D.rows) {
      auto it = row.find(q);
      if (it == row.end()) continue;
      check(got.count(id), when + ": the value of field " + q + " of row " + str(id) + " is not stored");
      check(got.at(id) == it->second, when + ": the value of field " + q + " of row " + str(id) + " changed");
    }
    for (auto& [id, v] : got) check(D.rows.count(id) && D.rows.at(id).count(q), when + ": field " + q + " of row " + str(id) + " was never given");
  }
  double sc = 0;
  for (auto& [c, crp] : g.entity_crps) sc += crp.logp_score();
  for (auto& [c, irm] : g.hirm->irms) sc += irm->logp_score();
  sc += g.hirm->crp.logp_score();
  near(g.logp_score(), sc, when + ": logp_score is not the sum of its parts");
}
static OV rvalue(const ScalarVar& s, bool noisy) {
  if (s.joint_name == "bool") return (bool)ri(0, 1);
  if (s.joint_name == "real") return rval<double>();
  if (s.joint_name == "categorical") return ri(0, 2);
  if (s.joint_name == "stringcat" && !noisy) return pick<std::string>({"aa", "bb", "cab"});
  return pick<std::string>({"aa", "bb", "cab", "ab", "c"});
}
static std::string ovs(const OV& v) { return std::visit([](auto&& x) { return vs(std::decay_t<decltype(x)>(x)); }, v); }
static bool mkdb(DB& D, const SGen& G) {
  bool ofe = !G.full && ri(0, 3) == 0, clean = ri(0, 2) > 0;
  op(std::string(ofe ? "final emissions only" : "all emissions") + (clean ? ", clean records" : ", noisy records"));
  if (!mkschema(D.S, G)) return false;
  D.r.seed(ri(0, 1 << 30));
  D.g.reset(new GenDB(&D.r, D.S, ofe, clean));
  D.E = expected(D.S, ofe, clean);
  for (auto& [n, e] : D.E) check(D.g->hirm->schema.contains(n), "there is no relation " + n);
  return true;
}
static std::map<std::string, OV> rrow(DB& D, bool full) {
  std::map<std::string, OV> row;
  std::string t;
  for (auto& [q, f] : D.S.query.fields) if (full || ri(0, 4)) {
    auto& e = D.E.at(q);
    row[q] = rvalue(*e.var, !e.base.empty());
    t += q + "=" + ovs(row[q]) + " ";
  }
  op("{" + t + "}");
  return row;
}
static void addrow(DB& D, int id, bool unique, bool full = false) {
  op("row " + str(id) + (unique ? " unique" : ""));
  auto row = rrow(D, full);
  auto before = D.g->reference_values;
  auto dbefore = reldata(D);
  D.g->incorporate(&D.r, {id, row}, unique);
  D.rows[id] = row;
  // what was there before stays
  for (auto& [c, m] : before) for (auto& [k, v] : m) check(D.g->reference_values.at(c).count(k) && D.g->reference_values.at(c).at(k) == v, "adding a row changed the reference " + k.first + " of an entity of class " + c);
  auto now = reldata(D);
  for (auto& [n, m] : dbefore) for (auto& [k, v] : m) { auto it = now.at(n).find(k); check(it != now.at(n).end() && it->second == v, "adding a row changed what relation " + n + " stores for " + strv(k)); }
  if (unique) {
    // entities on the queried chains of the row are new, and shared with no other reference
    for (auto& [q, f] : D.S.query.fields) if (row.count(q)) {
      auto& t = D.E.at(q).t;
      T_items w(t.dom.size());
      fill(D, t, w.size() - 1, id, w, "after a row");
      for (auto& [ind, m] : t.ref) for (auto& [fl, j] : m) {
        std::pair<std::string, int> k{fl, w[ind]};
        auto& cr = D.g->entity_crps.at(t.dom[j]);
        if (before.at(t.dom[ind]).count(k)) continue;
        check(cr.tables.at(w[j]).size() == 1, "with new entities for every row, entity " + str(w[j]) + " of class " + t.dom[j] + " is shared");
      }
    }
  }
}
// ---------------------------------------------------------------- moving references
// the entity existed before and after, and is not a new one under a reused number: some reference pointed to it throughout
using Refs = decltype(GenDB::reference_values);
static bool lasts(DB& D, const Refs& before, const std::string& cls, int e) {
  if (cls == D.S.query.record_class) return true;
  for (auto& [c, m] : before) for (auto& [k, v] : m) {
    if (v != e || rcls(D.S, c, k.first) != cls) continue;
    auto& now = D.g->reference_values.at(c);
    auto it = now.find(k);
    if (it != now.end() && it->second == e && lasts(D, before, c, k.second)) return true;
  }
  return false;
}
static void move(DB& D, const std::string& c, const std::string& f, int item) {
  op("move " + c + "." + f + " of " + str(item));
  auto before = D.g->reference_values;
  auto data = reldata(D);
  D.g->transition_reference(&D.r, c, f, item);
  std::string when = "after moving " + c + "." + f + " of entity " + str(item);
  check(D.g->reference_values.at(c).count({f, item}), when + ": the reference is gone");
  consistent(D, when, false);
  // nothing else changes: other references that still exist keep their value
  auto& now = D.g->reference_values;
  auto rc = rcls(D.S, c, f);
  bool moved = now.at(c).at({f, item}) != before.at(c).at({f, item});
  for (auto& [cc, m] : now) for (auto& [k, v] : m) {
    if (cc == c && k.first == f && k.second == item) continue;
    auto it = before.at(cc).find(k);
    if (it != before.at(cc).end() && lasts(D, before, cc, k.second)) check(it->second == v, when + ": the reference " + k.first + " of entity " + str(k.second) + " of class " + cc + " changed too");
  }
  // values of entities that exist before and after are kept
  auto dn = reldata(D);
  for (auto& [n, m] : data) {
    std::map<int, OV> a, b;
    for (auto& [k, v] : m) a[k.back()] = v;
    for (auto& [k, v] : dn.at(n)) b[k.back()] = v;
    auto cls = D.E.at(n).t.dom.back();
    for (auto& [e, v] : a) {
      bool alive = cls == D.S.query.record_class || D.g->entity_crps.at(cls).tables.contains(e);
      if (!alive) { check(!b.count(e), when + ": relation " + n + " keeps a value of the dropped entity " + str(e)); continue; }
      if (!lasts(D, before, cls, e)) continue;
      check(b.count(e), when + ": relation " + n + " lost the value of entity " + str(e));
      check(b.at(e) == v, when + ": relation " + n + " changed the value of entity " + str(e));
    }
// an entity without a value of an attribute may gain a sampled one, to be observed by a moved row
  }
}
static bool move1(DB& D) {
  std::vector<std::tuple<std::string, std::string, int>> R;
  for (auto& [c, m] : D.g->reference_values) for (auto& [k, v] : m) R.push_back({c, k.first, k.second});
  if (R.empty()) return false;
  auto [c, f, item] = pick(R);
  move(D, c, f, item);
  return true;
}
static void c21() {
  begin("rows");
  DB D;
  bool moves = ri(0, 3) == 0;
  if (!mkdb(D, {4, 2, 2, !moves && ri(0, 3) == 0, false})) return;
  int n = ri(1, 6), mode = ri(0, 2), next = ri(0, 5) ? 0 : ri(5, 40000);
  if (moves) n += 4;
  for (int i = 0; i < n; i++) {
    next += ri(1, 3);
    addrow(D, next, mode == 2 || (mode == 1 && ri(0, 1)));
    consistent(D, "after a row", !moves);
    if (moves && ri(0, 1)) move1(D);
  }
  done();
}

static void c22() {
  begin("moves");
  DB D;
  bool full = ri(0, 1), tree = ri(0, 1);
  bool strings = false;   // moves over string fields hit the recorded finding bigram-emission-inverse (C24)
  if (!mkdb(D, {4, 2, 2, strings, (bool)ri(0, 1), tree, full})) return;
  int n = ri(2, 5);
  for (int i = 0; i < n; i++) addrow(D, i, ri(0, 3) == 0, full);
  consistent(D, "after the rows");
  bool any = false;
  for (int i = ri(3, 8); i > 0; i--) {
    std::vector<std::tuple<std::string, std::string, int>> R;
    for (auto& [c, m] : D.g->reference_values) for (auto& [k, v] : m) R.push_back({c, k.first, k.second});
    if (R.empty()) return;
    auto [c, f, item] = pick(R);
    int k = ri(0, 9);
    if (k == 0) {
      op("move all references");
      D.g->transition_reference_class_and_ancestors(&D.r, D.S.query.record_class);
      consistent(D, "after moving all references", false);
    } else if (k == 1) {
      op("cluster relations");
      for (auto& [q, f] : D.S.query.fields) D.g->hirm->transition_cluster_assignment_relation(&D.r, q);
      consistent(D, "after clustering the relations", false);
    } else if (k == 2 && !strings) {
      op("cluster entities");
      for (auto& [code, irm] : D.g->hirm->irms) irm->transition_cluster_assignments_all(&D.r);
      consistent(D, "after clustering the entities", false);
    } else if (k == 3) {
      addrow(D, n++, ri(0, 1), full);
      consistent(D, "after a row", false);
    } else move(D, c, f, item);
    any = true;
  }
  done(any);
}

// ---------------------------------------------------------------- tables into the database
static void c26() {
  begin("table");
  DB D;
  if (!mkdb(D, {4, 2, 2, ri(0, 2) == 0, false})) return;
  int parts = ri(1, 2), base = ri(0, 3) ? 0 : ri(5, 40000);
  for (int p = 0; p < parts; p++) {
    DataFrame df;
    int n = ri(1, 4);
    bool extra = ri(0, 2) == 0;
    op("table of " + str(n) + " rows");
    for (auto& [q, f] : D.S.query.fields) if (ri(0, 5)) {
      df.columns.push_back(q);
      auto& e = D.E.at(q);
      for (int i = 0; i < n; i++) {
        if (ri(0, 3) == 0) { df.data[q].push_back(""); continue; }
        OV v = rvalue(*e.var, !e.base.empty());
        if (auto* d = std::get_if<double>(&v)) v = ri(-8, 8) * 0.25;
        std::string s = std::visit([](auto& x) { return str(x); }, v);
        df.data[q].push_back(s);
        D.rows[base + i][q] = v;
        op(q + "[" + str(i) + "]=" + s);
      }
    }
    if (extra) { df.columns.push_back("other"); for (int i = 0; i < n; i++) df.data["other"].push_back("x"); }
    auto before = D.g->reference_values;
    incorporate_observations(&D.r, D.g.get(), df, base);
    base += n;
    consistent(D, "after the table");
  }
  // every stored entity has a name in the written clustering
  auto enc = make_dummy_encoding_from_gendb(*D.g);
  for (auto& [code, irm] : D.g->hirm->irms) for (auto& [dn, d] : irm->domains) for (int e : d->items) {
    check(enc.second.contains(dn) && enc.second.at(dn).contains(e), "entity " + str(e) + " of class " + dn + " has no name");
    check(enc.second.at(dn).at(e) == dn + ":" + str(e), "entity " + str(e) + " of class " + dn + " is named " + enc.second.at(dn).at(e));
  }
  done(!D.rows.empty());
}
static void c26samples() {
  begin("sampled table");
  DB D;
  if (!mkdb(D, {4, 2, 2, false, false})) return;
  int n = ri(0, 3), far = ri(0, 3) ? 0 : ri(5, 40000);
  for (int i = 0; i < n; i++) addrow(D, far + i, ri(0, 1));
  auto before = reldata(D);
  int k = ri(1, 3), start = far + n + ri(0, 2);
  op("sample " + str(k) + " rows from " + str(start));
  DataFrame df = make_pclean_samples(k, start, D.g.get(), &D.r);
  auto now = reldata(D);
  std::set<std::string> cols(df.columns.begin(), df.columns.end());
  check(cols.size() == df.columns.size() && cols.size() == D.S.query.fields.size(), "the sampled table lists " + str(df.columns.size()) + " columns for " + str(D.S.query.fields.size()) + " queried ones");
  for (auto& [q, f] : D.S.query.fields) {
    check(cols.count(q), "the sampled table does not list column " + q);
    check(df.data[q].size() == (size_t)k, "column " + q + " of the sampled table has " + str(df.data[q].size()) + " cells");
    std::map<int, OV> got;
    for (auto& [t, v] : now.at(q)) got[t.back()] = v;
    for (int i = 0; i < k; i++) {
      check(got.count(start + i), "sampled row " + str(start + i) + " is not stored");
      std::string s = std::visit([](auto& x) { std::ostringstream o; o << x; return o.str(); }, got.at(start + i));
      check(s == df.data[q][i], "cell " + str(i) + " of column " + q + " shows " + df.data[q][i] + " but row " + str(start + i) + " holds " + s);
      D.rows[start + i][q] = got.at(start + i);
    }
  }
  for (auto& [r, m] : before) for (auto& [t, v] : m) { auto it = now.at(r).find(t); check(it != now.at(r).end() && it->second == v, "sampling rows changed what relation " + r + " stores for " + strv(t)); }
  consistent(D, "after sampling rows");
  done();
}

int main(int argc, char** argv) {
  return run(argc, argv, {
#if !defined(ONLY) || defined(ONLY_C20)
    {"C20", {c20, c20joint, c20text}},
#endif
#if !defined(ONLY) || defined(ONLY_C21)
    {"C21", {c21}},
#endif
#if !defined(ONLY) || defined(ONLY_C22)
    {"C22", {c22}},
#endif
#if !defined(ONLY) || defined(ONLY_C26)
    {"C26", {c26, c26samples}},
#endif
  });
}
