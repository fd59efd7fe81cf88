// C17 C18 C19: observation files and encodings, specification parsing, CSV tables
#include "model.hh"
#include "hirm.hh"
#include "distributions/adapter.hh"
#include "pclean/csv.hh"
#include "util_io.hh"
#include "util_parse.hh"
#include <fstream>
#include <unistd.h>
using namespace md;
using namespace h;

static std::string rname(int lo, int hi, const std::string& abc) { std::string s; int n = ri(lo, hi); for (int i = 0; i < n; i++) s += abc[ri(0, abc.size() - 1)]; return s; }
static const std::string LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
static const std::string DIG = "0123456789";
static std::string ident() { return rname(1, 1, LET) + rname(0, 4, LET + DIG); }
template <class T> std::string q(const std::vector<T>& v) { std::string s; for (auto& x : v) s += "<" + str(x) + ">"; return s; }

// ---------------------------------------------------------------- C18: tokens
struct Tok { TokenType type; std::string val; };
static std::string tks(const std::vector<Tok>& v) { std::string s; for (auto& t : v) s += str((int)t.type) + ":<" + t.val + ">"; return s; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static const std::string SYM = "~()[]{}<>.,:;=+*-/";
// the reference reading of a line; false: the line is not well formed
static bool reftok(const std::string& s, std::vector<Tok>& out) {
  size_t i = 0;
  auto run = [&](size_t j, auto f) { while (j < s.size() && f(s[j])) j++; return j; };
  while (i < s.size()) {
    char c = s[i];
    if (c == '#') return true;
    if (sp(c)) { i++; continue; }
    if (SYM.find(c) != std::string::npos) { out.push_back({TokenType::symbol, std::string(1, c)}); i++; continue; }
    if (c == '"' || c == '\'') {
      size_t e = s.find(c, i + 1);
      if (e == std::string::npos) return false;
      out.push_back({TokenType::string, s.substr(i + 1, e - i - 1)});
      i = e + 1;
      continue;
    }
    if (dg(c)) { size_t e = run(i, [](char x) { return dg(x) || x == '.' || x == '_'; }); out.push_back({TokenType::number, s.substr(i, e - i)}); i = e; continue; }
    if (al(c) || c == '_') { size_t e = run(i, [](char x) { return al(x) || dg(x) || x == '_'; }); out.push_back({TokenType::identifier, s.substr(i, e - i)}); i = e; continue; }
    return false;
  }
  return true;
}
static void c18_tokens() {
  // free text over the interesting characters
  static const std::string ABC = "ab Z_09.,()[]{}<>~:;=+*-/#\"' \t$@\x80|&";
  for (int rep = 0; rep < 40; rep++) {
    std::string s = ri(0, 2) ? rname(0, 14, ABC) : rname(0, 14, "aB_1.5 ,=('\"#");
    if (ri(0, 9) == 0) s += (char)ri(1, 255);
    begin("tokenize", "<" + s + ">");
    std::vector<Tok> e;
    std::vector<Token> got;
    bool ok = reftok(s, e);
    bool r = tokenize(s, &got);
    check(r == ok, std::string("tokenize ") + (r ? "accepts" : "rejects") + " this line");
    if (!ok) continue;
    std::vector<Tok> g;
    for (auto& t : got) g.push_back({t.type, t.val});
    check(tks(g) == tks(e), "tokens are " + tks(g) + " instead of " + tks(e));
    // appending to tokens already there keeps them
    size_t n = got.size();
    tokenize(s, &got);
    check(got.size() == 2 * n, "tokenising twice into one list does not append");
    done(!e.empty());
  }
}

static DistributionEnum DE[] = {DistributionEnum::bernoulli, DistributionEnum::bigram, DistributionEnum::categorical, DistributionEnum::normal, DistributionEnum::skellam, DistributionEnum::stringcat, DistributionEnum::string_nat, DistributionEnum::string_normal, DistributionEnum::string_skellam};
static const char* DN[] = {"bernoulli", "bigram", "categorical", "normal", "skellam", "stringcat", "string_nat", "string_normal", "string_skellam"};
static ObservationEnum DO[] = {ObservationEnum::bool_type, ObservationEnum::string_type, ObservationEnum::int_type, ObservationEnum::double_type, ObservationEnum::int_type, ObservationEnum::string_type, ObservationEnum::string_type, ObservationEnum::string_type, ObservationEnum::string_type};
static EmissionEnum EE[] = {EmissionEnum::bigram_string, EmissionEnum::gaussian, EmissionEnum::simple_string, EmissionEnum::sometimes_bitflip, EmissionEnum::sometimes_categorical, EmissionEnum::sometimes_gaussian};
static const char* EN[] = {"bigram", "gaussian", "simple_string", "sometimes_bitflip", "sometimes_categorical", "sometimes_gaussian"};
static ObservationEnum EO[] = {ObservationEnum::string_type, ObservationEnum::double_type, ObservationEnum::string_type, ObservationEnum::bool_type, ObservationEnum::int_type, ObservationEnum::double_type};
using Args = std::map<std::string, std::string>;
static std::string args(const Args& a) { std::string s; for (auto& [k, v] : a) s += k + "=" + v + ","; return s; }

static void c18_spec() {
  for (int rep = 0; rep < 20; rep++) {
    int k = ri(0, 8);
    Args inl, given, ex;
    std::string text = DN[k];
    int n = ri(0, 3);
    for (int i = 0; i < ri(0, 2); i++) given[ident()] = rname(0, 4, LET + "=( ");
    if (n) {
      text += "(";
      for (int i = 0; i < n; i++) {
        std::string a = ident(), v = rname(0, 5, LET + DIG + " ()=._");
        if (inl.count(a)) continue;
        if (!inl.empty()) text += ",";
        inl[a] = v;
        text += a + "=" + v;
      }
      text += ")";
    }
    begin("DistributionSpec", "<" + text + "> with " + args(given));
    ex = given;
    for (auto& [a, v] : inl) ex[a] = v;
    DistributionSpec s(text, given);
    check(s.distribution == DE[k], "the specification names another distribution");
    check(s.observation_type == DO[k], "the specification has a wrong observation type");
    check(s.distribution_args == ex, "the arguments are " + args(s.distribution_args) + " instead of " + args(ex));
    done();
    int e = ri(0, 5);
    begin("EmissionSpec", std::string(EN[e]) + " with " + args(given));
    EmissionSpec t(EN[e], given);
    check(t.emission == EE[e] && t.observation_type == EO[e], "the error-model specification names another error model");
    check(t.emission_args == given, "the error model's arguments changed");
    done();
  }
}

template <class T> static std::unique_ptr<Distribution<T>> own(const DistributionVariant& v) {
  auto* p = std::get_if<Distribution<T>*>(&v);
  check(p != nullptr, "the model has a wrong observation type");
  return std::unique_ptr<Distribution<T>>(*p);
}
static void c18_prior() {
  std::mt19937 g(seed);
  for (int rep = 0; rep < 6; rep++) {
    int k = ri(0, 8);
    Args a;
    int len = ri(1, 40), cats = ri(1, 12);
    std::string delim = pick<std::string>({" ", ":", ";", "|", "a"});
    std::vector<std::string> strs;
    bool hasd = ri(0, 1), hasl = ri(0, 1);
    if (!hasd) delim = " ";
    if (k == 1 || k == 6) { if (hasl) a["maxlength"] = str(len); }
    if (k == 2) a["k"] = str(cats);
    if (k == 5) {
      std::string j;
      for (int i = 0; i < ri(1, 5); i++) { std::string x; for (char c : rname(1, 4, LET)) if (c != delim[0]) x += c; x += str(i); if (i) j += delim; strs.push_back(x); j += x; }
      a["strings"] = j;
      if (hasd) a["delim"] = delim;
    }
    begin("get_prior", std::string(DN[k]) + " " + args(a));
    DistributionSpec s(DN[k], a);
    DistributionVariant v = get_prior(s, &g);
    if (k == 0) { auto d = own<bool>(v); auto* b = dynamic_cast<BetaBernoulli*>(d.get()); check(b, "not a coin model"); near(b->logp(true), std::log(0.5), "a fresh coin is not fair"); }
    if (k == 1) { auto d = own<std::string>(v); auto* b = dynamic_cast<Bigram*>(d.get()); check(b, "not a character n-gram model"); check(b->max_length == (hasl ? (size_t)len : 80), "the n-gram model has max_length " + str(b->max_length)); }
    if (k == 2) { auto d = own<int>(v); auto* b = dynamic_cast<DirichletCategorical*>(d.get()); check(b, "not a categorical model"); check((int)b->counts.size() == cats, "the categorical model has " + str(b->counts.size()) + " categories"); }
    if (k == 3) { auto d = own<double>(v); check(dynamic_cast<Normal*>(d.get()), "not a Gaussian model"); }
    if (k == 4) { auto d = own<int>(v); auto* b = dynamic_cast<Skellam*>(d.get()); check(b, "not a Skellam model"); check(b->mu1 > 0 && b->mu2 > 0, "the Skellam model's rates are not initialised"); }
    if (k == 5) { auto d = own<std::string>(v); auto* b = dynamic_cast<StringCat*>(d.get()); check(b, "not a fixed-list string model"); check(b->strings == strs, "the fixed list is " + q(b->strings) + " instead of " + q(strs)); }
    if (k == 6) { auto d = own<std::string>(v); auto* b = dynamic_cast<StringNat*>(d.get()); check(b, "not a natural-number string model"); check(b->max_length == (hasl ? len : 20), "the string model has max_length " + str(b->max_length)); }
    if (k == 7) { auto d = own<std::string>(v); auto* b = dynamic_cast<DistributionAdapter<double>*>(d.get()); check(b && dynamic_cast<Normal*>(b->d), "not a Gaussian model over strings"); }
    if (k == 8) { auto d = own<std::string>(v); auto* b = dynamic_cast<DistributionAdapter<int>*>(d.get()); check(b && dynamic_cast<Skellam*>(b->d), "not a Skellam model over strings"); check(dynamic_cast<Skellam*>(b->d)->mu1 > 0, "the Skellam model's rates are not initialised"); }
    done();
    int e = ri(0, 5);
    Args ea;
    if (e == 4) ea["k"] = str(cats);
    begin("error model get_prior", std::string(EN[e]) + " " + args(ea));
    EmissionVariant ev = get_prior(EmissionSpec(EN[e], ea), &g);
    if (EO[e] == ObservationEnum::string_type) {
      std::unique_ptr<Emission<std::string>> m(std::get<Emission<std::string>*>(ev));
      check(e == 0 ? dynamic_cast<BigramStringEmission*>(m.get()) != nullptr : dynamic_cast<SimpleStringEmission*>(m.get()) != nullptr, "another error model was built");
    } else if (EO[e] == ObservationEnum::double_type) {
      std::unique_ptr<Emission<double>> m(std::get<Emission<double>*>(ev));
      auto* so = dynamic_cast<Sometimes<double>*>(m.get());
      check((e == 5) == (so != nullptr) && dynamic_cast<GaussianEmission*>(so ? so->be : m.get()), "another error model was built");
    } else if (EO[e] == ObservationEnum::bool_type) {
      std::unique_ptr<Emission<bool>> m(std::get<Emission<bool>*>(ev));
      auto* so = dynamic_cast<Sometimes<bool>*>(m.get());
      check(so && dynamic_cast<BitFlip*>(so->be), "another error model was built");
    } else {
      std::unique_ptr<Emission<int>> m(std::get<Emission<int>*>(ev));
      auto* so = dynamic_cast<Sometimes<int>*>(m.get());
      check(so && dynamic_cast<CategoricalEmission*>(so->be), "another error model was built");
      auto* ce = dynamic_cast<CategoricalEmission*>(so->be);
      check((int)ce->emission_dists.size() == cats, "the categorical error model has " + str(ce->emission_dists.size()) + " states");
      check(so->dirty_can_equal_clean, "the categorical error model can produce the clean value, but Sometimes assumes it cannot");
    }
    done();
  }
}

struct SRel { std::string name, dist, base; Args a; std::vector<std::string> doms; int kind; bool noisy; };
static std::vector<SRel> rschema(int maxrel) {
  std::vector<SRel> rs;
  std::set<std::string> names;
  std::vector<std::string> D;
  for (int i = 0; i < 4; i++) D.push_back(ident() + str(i));
  int n = ri(1, maxrel);
  for (int i = 0; i < n; i++) {
    SRel r;
    do r.name = ident(); while (!names.insert(r.name).second);
    r.noisy = !rs.empty() && ri(0, 1);
    if (r.noisy) {
      auto& b = rs[ri(0, rs.size() - 1)];
      r.base = b.name; r.doms = b.doms;
      r.kind = ri(0, 5); r.dist = EN[r.kind];
      while (ri(0, 1) && r.doms.size() < 4) r.doms.push_back(pick(D));
    } else {
      r.kind = ri(0, 8); r.dist = DN[r.kind];
      int k = ri(1, 3);
      for (int j = 0; j < k; j++) r.doms.push_back(pick(D));
    }
    int na = ri(0, 3);
    for (int j = 0; j < na; j++) {
      int t = ri(0, 2);
      r.a[ident()] = t == 0 ? ident() : t == 1 ? rname(1, 1, DIG) + rname(0, 3, DIG + "._") : pick<std::string>({"a b c", "x:y", "#", "a,b]", "it's", ""});
    }
    rs.push_back(r);
  }
  return rs;
}
static std::string ws() { return pick<std::string>({"", "", " ", "  ", "\t"}); }
static std::string quote(const std::string& v) {
  bool id = !v.empty(), num = !v.empty() && dg(v[0]);
  for (size_t i = 0; i < v.size(); i++) { if (!(al(v[i]) || dg(v[i]) || v[i] == '_') || (i == 0 && dg(v[i]))) id = false; if (!(dg(v[i]) || v[i] == '.' || v[i] == '_')) num = false; }
  if ((id || num) && ri(0, 2)) return v;
  return v.find('\'') != std::string::npos ? "\"" + v + "\"" : ri(0, 1) ? "'" + v + "'" : "\"" + v + "\"";
}
static std::string line(const SRel& r) {
  std::string s = ws() + r.name + ws() + "~" + ws() + r.dist + ws();
  if (!r.a.empty()) {
    s += "[";
    std::vector<std::pair<std::string, std::string>> v(r.a.begin(), r.a.end());
    std::shuffle(v.begin(), v.end(), rng);
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," + ws() : ws()) + v[i].first + ws() + "=" + ws() + quote(v[i].second) + ws();
    s += "]" + ws();
  }
  s += "(" + ws();
  if (r.noisy) s += r.base + ws() + ";" + ws();
  for (size_t i = 0; i < r.doms.size(); i++) s += (i ? "," + ws() : "") + r.doms[i] + ws();
  s += ")" + ws();
  if (ri(0, 3) == 0) s += "# " + rname(0, 8, LET + " ,()'\"~#");
  return s;
}
static std::string tmpname(const char* n) { return std::string(n) + "-" + str(getpid()) + ".txt"; }
static void c18_schema() {
  for (int rep = 0; rep < 12; rep++) {
    auto rs = rschema(5);
    std::vector<std::string> lines;
    for (auto& r : rs) lines.push_back(line(r));
    if (ri(0, 1)) std::shuffle(lines.begin(), lines.end(), rng);
    std::string text;
    for (auto& l : lines) { if (ri(0, 3) == 0) text += pick<std::string>({"\n", "# a ~ comment(x)\n", "   \n"}); text += l + "\n"; }
    begin("load_schema", "<" + text + ">");
    std::string f = tmpname("schema");
    { std::ofstream o(f); o << text; }
    T_schema s = load_schema(f);
    unlink(f.c_str());
    check(s.size() == rs.size(), "the schema has " + str(s.size()) + " relations instead of " + str(rs.size()));
    for (auto& r : rs) {
      auto it = s.find(r.name);
      check(it != s.end(), "relation " + r.name + " is missing from the schema");
      if (r.noisy) {
        auto* t = std::get_if<T_noisy_relation>(&it->second);
        check(t, r.name + " should be a noisy relation");
        check(t->domains == r.doms, r.name + " has domains " + q(t->domains) + " instead of " + q(r.doms));
        check(t->base_relation == r.base, r.name + " has base " + t->base_relation);
        check(t->emission_spec.emission == EE[r.kind] && t->emission_spec.observation_type == EO[r.kind], r.name + " has another error model");
        check(t->emission_spec.emission_args == r.a, r.name + " has arguments " + args(t->emission_spec.emission_args) + " instead of " + args(r.a));
        check(!t->is_observed, r.name + " is marked observed");
      } else {
        auto* t = std::get_if<T_clean_relation>(&it->second);
        check(t, r.name + " should be a clean relation");
        check(t->domains == r.doms, r.name + " has domains " + q(t->domains) + " instead of " + q(r.doms));
        check(t->distribution_spec.distribution == DE[r.kind] && t->distribution_spec.observation_type == DO[r.kind], r.name + " has another distribution");
        check(t->distribution_spec.distribution_args == r.a, r.name + " has arguments " + args(t->distribution_spec.distribution_args) + " instead of " + args(r.a));
        check(!t->is_observed, r.name + " is marked observed");
      }
    }
    done();
  }
}

// ---------------------------------------------------------------- C17
using Row = std::tuple<std::vector<std::string>, std::string>;
static T_schema mkschema(const std::vector<SRel>& rs) {
  T_schema s;
  for (auto& r : rs) {
    if (r.noisy) { T_noisy_relation t; t.domains = r.doms; t.base_relation = r.base; t.emission_spec = EmissionSpec(r.dist, r.a); t.is_observed = false; s[r.name] = t; }
    else { T_clean_relation t; t.domains = r.doms; t.distribution_spec = DistributionSpec(r.dist, r.a); t.is_observed = false; s[r.name] = t; }
  }
  return s;
}
static std::string ent() { return ri(0, 2) ? rname(1, 1, "abc") : rname(1, 4, LET + DIG + " .-#'\"/"); }
static void c17_files() {
  for (int rep = 0; rep < 8; rep++) {
    auto rs = rschema(5);
    T_schema s = mkschema(rs);
    std::map<std::string, std::vector<Row>> ref;
    std::vector<std::pair<std::string, Row>> order;
    std::string text;
    int n = ri(0, 12);
    for (int i = 0; i < n; i++) {
      auto& r = pick(rs);
      std::vector<std::string> items;
      for (size_t j = 0; j < r.doms.size(); j++) items.push_back(j + 1 < r.doms.size() && ri(0, 9) == 0 ? "" : ent());
      std::string v = ri(0, 5) ? rname(1, 4, LET + DIG + ". ") : rname(0, 6, LET + " -#'\".");
      ref[r.name].push_back({items, v});
      text += v + "," + r.name;
      for (auto& e : items) text += "," + e;
      if (i + 1 < n || ri(0, 1)) text += "\n";
    }
    begin("load_observations", "<" + text + ">");
    std::string f = tmpname("obs");
    { std::ofstream o(f); o << text; }
    T_observations obs = load_observations(f, s);
    size_t tot = 0;
    for (auto& [r, rows] : obs) {
      tot += rows.size();
      check(ref.count(r), "observations of a relation that has none");
      check(rows.size() == ref[r].size(), "relation " + r + " has " + str(rows.size()) + " observations instead of " + str(ref[r].size()));
      for (size_t i = 0; i < rows.size(); i++) {
        check(std::get<1>(rows[i]) == std::get<1>(ref[r][i]), "value <" + std::get<1>(rows[i]) + "> instead of <" + std::get<1>(ref[r][i]) + ">");
        check(std::get<0>(rows[i]) == std::get<0>(ref[r][i]), "entities " + q(std::get<0>(rows[i])) + " instead of " + q(std::get<0>(ref[r][i])));
      }
    }
    check((int)tot == n, str(tot) + " observations were loaded from " + str(n) + " lines");
    for (auto& r : rs) {
      bool ob = std::visit([](auto& t) { return t.is_observed; }, s.at(r.name));
      check(ob == (ref.count(r.name) > 0), "relation " + r.name + " is marked " + (ob ? "observed" : "unobserved") + " wrongly");
    }
    done(n > 0);

    // encodings
    begin("encoding", "<" + text + ">");
    T_encoding enc = calculate_encoding(s, obs);
    auto& [fw, bw] = enc;
    std::map<std::string, std::set<std::string>> used;
    for (auto& r : rs) for (auto& d : r.doms) used[d];
    for (auto& r : rs) for (auto& [items, v] : ref[r.name]) for (size_t j = 0; j < items.size(); j++) used[r.doms[j]].insert(items[j]);
    check(fw.size() == used.size() && bw.size() == used.size(), "the encoding covers another set of domains");
    for (auto& [d, es] : used) {
      check(fw.count(d) && bw.count(d), "domain " + d + " has no encoding");
      check(fw[d].size() == es.size(), "domain " + d + " encodes " + str(fw[d].size()) + " entities instead of " + str(es.size()));
      check(bw[d].size() == es.size(), "domain " + d + " has " + str(bw[d].size()) + " codes for " + str(es.size()) + " entities");
      for (auto& e : es) {
        check(fw[d].count(e), "entity <" + e + "> of " + d + " has no code");
        int c = fw[d][e];
        check(bw[d].count(c) && bw[d][c] == e, "decoding the code of <" + e + "> in " + d + " gives another entity");
      }
    }
    T_schema s2;
    std::vector<SRel> safe = rs;
    for (auto& r : safe) { if (!r.noisy && r.kind == 2) r.a = {{"k", "3"}}; else if (!r.noisy && r.kind == 5) r.a = {{"strings", "a b"}}; else r.a.clear(); if (r.noisy && r.kind == 4) r.a = {{"k", "3"}}; }
    // a model is needed only for its schema: give every relation one type
    for (auto& r : safe) { if (r.noisy) { r.kind = 3; r.dist = "sometimes_bitflip"; } else { r.kind = 0; r.dist = "bernoulli"; } r.a.clear(); }
    std::mt19937 g(1);
    IRM irm(mkschema(safe));
    std::variant<IRM*, HIRM*> hi(&irm);
    auto eo = encode_observations(obs, enc, hi);
    size_t et = 0;
    for (auto& [r, rows] : eo) {
      et += rows.size();
      check(rows.size() == ref[r].size(), "encoding changed the number of observations of " + r);
      auto& doms = std::visit([](auto& t) -> std::vector<std::string>& { return t.domains; }, s.at(r));
      for (size_t i = 0; i < rows.size(); i++) {
        check(std::get<1>(rows[i]) == std::get<1>(ref[r][i]), "encoding changed a value");
        std::vector<std::string> back;
        for (size_t j = 0; j < std::get<0>(rows[i]).size(); j++) { auto& m = bw[doms.at(j)]; int c = std::get<0>(rows[i])[j]; check(m.count(c), "an encoded entity has no name"); back.push_back(m[c]); }
        check(back == std::get<0>(ref[r][i]), "decoding the encoded entities gives " + q(back) + " instead of " + q(std::get<0>(ref[r][i])));
      }
    }
    check(et == tot, "encoding changed the number of observations");
    // writing the encoded observations and loading them again gives them back
    write_observations(f, eo, enc, hi);
    T_schema s3 = mkschema(rs);
    T_observations again = load_observations(f, s3);
    unlink(f.c_str());
    check(again == obs, "writing the observations and loading them again changes them");
    done(n > 1);
    // merging
    begin("merge_observations", "<" + text + ">");
    T_observations a, b;
    for (auto& [r, rows] : obs) for (auto& x : rows) (ri(0, 1) ? a : b)[r].push_back(x);
    T_observations m = merge_observations(a, b);
    for (auto& [r, rows] : obs) {
      std::vector<T_observation> e;
      if (a.count(r)) e.insert(e.end(), a[r].begin(), a[r].end());
      if (b.count(r)) e.insert(e.end(), b[r].begin(), b[r].end());
      auto key = [](const T_observation& o) { return q(std::get<0>(o)) + "=" + std::get<1>(o); };
      std::multiset<std::string> x, y;
      for (auto& o : e) x.insert(key(o));
      for (auto& o : m[r]) y.insert(key(o));
      check(x == y, "merging observation sets loses or invents observations of " + r);
    }
    check(m.size() == obs.size(), "merging observation sets changes the set of relations");
    done(n > 1);
  }
}

// ---------------------------------------------------------------- C19
static std::string cell() {
  std::string s = ri(0, 3) == 0 ? "" : rname(1, 5, LET + DIG + " .#'\"-;\t");
  while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
  return s;
}
static void c19() {
  for (int rep = 0; rep < 30; rep++) {
    int nc = ri(1, 5), nr = ri(0, 6);
    std::vector<std::string> cols;
    for (int i = 0; i < nc; i++) { std::string c; do { c = cell(); } while (std::count(cols.begin(), cols.end(), c) || (c.empty() && nc == 1)); cols.push_back(c); }
    std::vector<std::vector<std::string>> rows(nr);
    for (auto& r : rows) for (int i = 0; i < nc; i++) { std::string c; do c = cell(); while (nc == 1 && c.empty()); r.push_back(c); }
    bool given = ri(0, 1), crlf = ri(0, 3) == 0, pad = ri(0, 2) == 0;
    auto wr = [&](const std::vector<std::string>& r) {
      std::string l;
      for (size_t i = 0; i < r.size(); i++) l += (i ? "," : "") + r[i] + (pad && ri(0, 1) ? std::string(ri(1, 2), ' ') : "");
      return l + (crlf ? "\r" : "");
    };
    std::string text;
    if (!given) text += wr(cols) + "\n";
    for (size_t i = 0; i < rows.size(); i++) { if (ri(0, 5) == 0) text += "\n"; text += wr(rows[i]); if (i + 1 < rows.size() || ri(0, 2)) text += "\n"; }
    begin("from_csv", (given ? "columns " + q(cols) + " " : "") + "<" + text + ">");
    DataFrame df;
    if (ri(0, 3) == 0) {
      std::string f = tmpname("csv");
      { std::ofstream o(f); o << text; }
      df = given ? DataFrame::from_csv(f, cols) : DataFrame::from_csv(f);
      unlink(f.c_str());
    } else {
      std::istringstream is(text);
      df = given ? DataFrame::from_csv(is, cols) : DataFrame::from_csv(is);
    }
    auto verify = [&](DataFrame& d, const std::string& when) {
      check(d.columns == cols, when + ": the columns are " + q(d.columns) + " instead of " + q(cols));
      check(d.data.size() == cols.size(), when + ": the table holds " + str(d.data.size()) + " columns");
      for (int i = 0; i < nc; i++) {
        std::vector<std::string> e;
        for (auto& r : rows) e.push_back(r[i]);
        check(d.data.count(cols[i]), when + ": column <" + cols[i] + "> has no cells");
        check(d.data[cols[i]] == e, when + ": column <" + cols[i] + "> holds " + q(d.data[cols[i]]) + " instead of " + q(e));
      }
    };
    verify(df, "reading");
    std::ostringstream os;
    check(df.to_csv(os), "writing reports an error");
    std::string expect;
    auto plain = [&](const std::vector<std::string>& r) { std::string l; for (size_t i = 0; i < r.size(); i++) l += (i ? "," : "") + r[i]; return l + "\n"; };
    expect = plain(cols);
    for (auto& r : rows) expect += plain(r);
    op("to_csv");
    std::istringstream is2(os.str());
    DataFrame d2 = DataFrame::from_csv(is2);
    verify(d2, "writing and reading back");
    check(os.str() == expect, "the written table is <" + os.str() + "> instead of <" + expect + ">");
    done(nr > 0 && nc > 1);
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, {
    {"C17", {c17_files}},
    {"C18", {c18_tokens, c18_spec, c18_prior, c18_schema}},
    {"C19", {c19}},
  });
}
