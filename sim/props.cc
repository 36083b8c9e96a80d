#include "props.h"
#include <unordered_map>
#include <sstream>
using std::string; using std::vector;

string Case::ser() const {
  string o = "CASE " + prop + " " + std::to_string(seed) + "\n";
  for (auto& m : meta) o += "meta " + m.first + " " + std::to_string(m.second.size()) + "\n" + m.second + "\n";
  for (auto& r : runs) o += r.ser();
  return o + "ENDCASE\n";
}
bool Case::parse(const string& s) {
  size_t p = 0; auto line = [&]() { size_t e = s.find('\n', p); string l = s.substr(p, e == string::npos ? e : e - p); p = e == string::npos ? s.size() : e + 1; return l; };
  string l = line(); while (l.size() && l[0] == '#') l = line();
  char id[32]; unsigned long sd; if (sscanf(l.c_str(), "CASE %31s %lu", id, &sd) != 2) return false; prop = id; seed = sd;
  for (;;) {
    size_t q = p; l = line();
    if (l == "ENDCASE") return true;
    if (l.compare(0, 5, "meta ") == 0) { char k[64]; unsigned long n; if (sscanf(l.c_str(), "meta %63s %lu", k, &n) != 2) return false; meta[k] = s.substr(p, n); p += n + 1; }
    else if (l == "SCENARIO") { p = q; Scenario sc; if (!sc.parse(s, p)) return false; runs.push_back(sc); }
    else return false;
  }
}
Result Env::run(const Scenario& s) { runs++; return z[s.variant]->run(s); }
string first_file(const Scenario& s, const char* n) { for (auto& f : s.files) if (f.first == n) return f.second; return ""; }
// the system a run is about: the input file, or its plain reference text
static string src_of(const Scenario& s) { string t = first_file(s, "ref.ms"); return t.empty() ? first_file(s, "in.ms") : t; }
static string optval(const Scenario& s, const char* o) { for (size_t i = 0; i + 1 < s.argv.size(); i++) if (s.argv[i] == o) return s.argv[i + 1]; return ""; }
static bool hasopt(const Scenario& s, const char* o) { for (auto& a : s.argv) if (a == o) return true; return false; }

// steps allowed per run.  Every generated system is small (bounded by the cost of the
// reference computation); ordinary runs need 1e5..5e7 steps.
static const u64 FUEL = 300000000ULL;
static const u64 CAP_FP = 1500000, CAP_QQ = 600000;

static bool want_unlucky(Rng& r) { return r.chance(1, 4); }
// ------------------------------------------------------------------ common judging
static string g_out;
static const string& output_of(const Scenario& s, const Result& r) { static string empty; string o = optval(s, "-o"); if (o.empty()) return r.out; const string* f = r.file(o); return f ? *f : empty; }
static bool ended_ok(const Result& r, Verdict& v) {
  char b[200];
  switch (r.end) {
    case E_EXIT: if (r.code == 0) return true; snprintf(b, sizeof b, "exit status %d", r.code); v.cls = "error-exit"; v.msg = b + string(r.err.empty() ? "" : ": " + r.err.substr(0, 200)); break;
    case E_FUEL: case E_CPU: v.cls = "hang"; v.msg = "no termination within the step budget"; break;
    case E_DEADLOCK: v.cls = "deadlock"; v.msg = "all threads blocked"; break;
    case E_SIGNAL: snprintf(b, sizeof b, "killed by signal %d", r.code); v.cls = "crash"; v.msg = b; break;
    default: v.cls = "odd-end"; v.msg = r.brief();
  }
  v.bad = true; return false;
}
static Verdict bad(const string& c, const string& m, int run = 0) { Verdict v; v.bad = true; v.cls = c; v.msg = m; v.run = run; return v; }

template <class T> struct Cache { std::unordered_map<string, std::shared_ptr<T>> m; template <class F> std::shared_ptr<T> get(const string& k, F f) { auto it = m.find(k); if (it != m.end()) return it->second; if (m.size() > 200) m.clear(); auto p = std::make_shared<T>(); f(*p); m[k] = p; return p; } };

// reference reduced Groebner basis (block length k), as monic QQ polys (Fp residues as integers)
struct RefGB { bool ok = false; Sys s; vector<QPoly> g; };
static QPoly lift(const FPoly& p) { QPoly r; for (auto& t : p) r.push_back({t.m, qi((i64)t.c)}); return r; }
static vector<QPoly> ref_gb_sys(const Sys& s, int k, OpCap& cap) {
  vector<QPoly> out;
  if (s.ch) { AF A; A.f.p = s.ch; A.o = Order{s.n(), k}; A.cap = &cap; vector<FPoly> in; for (auto& p : s.polys) in.push_back(to_fp(p, A)); for (auto& g : A.gb(in)) out.push_back(lift(g)); }
  else { AQ A; A.o = Order{s.n(), k}; A.cap = &cap; vector<QPoly> in; for (auto& p : s.polys) in.push_back(reorder(p, A)); out = A.gb(in); }
  return out;
}
static std::shared_ptr<RefGB> ref_gb(const string& text, int k, u64 capn) {
  static Cache<RefGB> C;
  return C.get(std::to_string(k) + "|" + text, [&](RefGB& r) { if (!parse_sys(text, r.s)) return; OpCap c{capn}; try { r.g = ref_gb_sys(r.s, k, c); r.ok = true; } catch (CapHit&) {} });
}
// normalise printed polynomial: monic in the field, sorted in the order
static bool canon(const QPoly& p, const Sys& s, const Order& o, QPoly& out) {
  if (s.ch) { AF A; A.f.p = s.ch; A.o = o; FPoly q = to_fp(p, A); if (q.empty()) return false; A.monic(q); out = lift(q); }
  else { AQ A; A.o = o; out = reorder(p, A); if (out.empty()) return false; A.monic(out); }
  return true;
}
static string poly_str(const QPoly& p, const vector<string>& v) { AQ A; A.o = Order{(int)v.size(), 0}; string s = A.str(p, v); return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
// compare a printed basis with a reference basis (both lists in increasing order)
static Verdict compare_basis(const GBOut& g, const vector<QPoly>& ref, const Sys& s, const Order& o, bool lead) {
  if (!g.ok) return bad("malformed", g.why);
  if (g.polys.size() != ref.size()) return bad("wrong", "basis has " + std::to_string(g.polys.size()) + " elements, reference has " + std::to_string(ref.size()));
  AQ A; A.o = o;
  for (size_t i = 0; i < ref.size(); i++) {
    QPoly c; 
    if (lead) { c = reorder(g.polys[i], A); if (c.size() != 1) return bad("malformed", "leading ideal entry is not a monomial"); if (!(c[0].m == ref[i][0].m)) return bad("wrong", "leading monomial #" + std::to_string(i + 1) + " differs from the reference"); continue; }
    if (!canon(g.polys[i], s, o, c)) return bad("wrong", "zero element in the basis");
    if (!A.same(c, ref[i])) return bad("wrong", "basis element #" + std::to_string(i + 1) + " is " + poly_str(c, s.vars) + ", reference " + poly_str(ref[i], s.vars));
  }
  return Verdict();
}
// -r 0: a minimal basis which need not be reduced: its leading monomials are those of the
// reference and it generates the same ideal
static Verdict compare_minimal(const GBOut& g, const vector<QPoly>& ref, const Sys& s, const Order& o) {
  if (!g.ok) return bad("malformed", g.why);
  if (g.polys.size() != ref.size()) return bad("wrong", "basis has " + std::to_string(g.polys.size()) + " elements, reference has " + std::to_string(ref.size()));
  vector<char> seen(ref.size(), 0);
  for (auto& p : g.polys) { QPoly c; if (!canon(p, s, o, c)) return bad("wrong", "zero element in the basis"); bool in = false; for (size_t i = 0; i < ref.size(); i++) if (!seen[i] && c[0].m == ref[i][0].m) { seen[i] = 1; in = true; break; } if (!in) return bad("wrong", "leading monomial of " + poly_str(c, s.vars) + " is not one of the reference"); }
  Sys y = s; y.polys = g.polys; auto h = ref_gb(y.text(), o.k, s.ch ? CAP_FP * 20 : CAP_QQ * 20); if (!h->ok) return Verdict();
  AQ A; A.o = o; bool eq = h->g.size() == ref.size(); for (size_t i = 0; eq && i < ref.size(); i++) eq = A.same(h->g[i], ref[i]);
  return eq ? Verdict() : bad("wrong", "the printed polynomials generate another ideal");
}
static void base_cli(Scenario& sc, const string& text) { sc.files = {{"in.ms", text}}; sc.argv = {"-f", "in.ms"}; sc.fuel = FUEL; }
static void stdopts(Rng& r, Scenario& sc, bool prob, int thr = 8) { if (r.chance(6, 7)) { sc.argv.push_back("-o"); sc.argv.push_back("out.ms"); } knobs(r, sc.argv, prob, thr); swarm(r, sc); if (r.chance(1, 6)) sc.variant = 1; 
  // leftovers of an earlier run in the output file
  if (hasopt(sc, "-o") && r.chance(1, 6)) sc.files.push_back({"out.ms", "[0, [stale"}); }

// with -c 0 and -c 1 a computation may be given up (loudly, without a result)
static bool gave_up(const Scenario& s, const Result& r) {
  string c = optval(s, "-c"); if (c != "0" && c != "1") return false;
  if (r.end != E_EXIT || r.code > 1 || r.err.find("Computation failed") == string::npos) return false;
  string on = optval(s, "-o"), was, is = on.empty() ? r.out : string(); for (auto& f : s.files) if (f.first == on) was = f.second; for (auto& f : r.files) if (f.first == on) is = f.second;
  return is.empty() || is == was;
}
template <class J> static Verdict each(const Case& c, const vector<Result>& rs, J j) {
  for (size_t i = 0; i < rs.size(); i++) { Verdict v; if (gave_up(c.runs[i], rs[i])) continue; if (!ended_ok(rs[i], v)) { v.run = (int)i; return v; } v = j(c.runs[i], rs[i]); if (v.bad) { v.run = (int)i; return v; } }
  return Verdict();
}

// ------------------------------------------------------------------ C01 GB over prime fields
static bool gen_c01(Rng& r, Env& e, Case& c) {
  int cl = (int)r.pick(vector<int>{8, 16, 16, 31, 30, 30, 30, 30});
  GenOpt g; g.ch = gen_prime(r, cl); g.size = (int)r.range(1, 3); g.maxv = (int)r.range(2, 6);
  Sys s = gen_sys(r, g, &c.meta["family"]); string t = s.text(&r);
  if (!ref_gb(t, 0, CAP_FP)->ok) return false;
  int k = (int)r.range(2, 5);
  for (int i = 0; i < k; i++) { Scenario sc; base_cli(sc, t); sc.argv.push_back("-g"); sc.argv.push_back(r.chance(1, 6) ? "1" : "2"); if (r.chance(1, 8)) sc.argv.insert(sc.argv.end(), {"-r", "0"}); stdopts(r, sc, g.ch >= (1u << 30)); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c01(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    auto ref = ref_gb(src_of(s), 0, CAP_FP * 20); if (!ref->ok) return Verdict();
    GBOut g = parse_gb(output_of(s, r)); bool lead = optval(s, "-g") == "1";
    if (g.ok && g.vars != ref->s.vars) return bad("malformed", "variable order line wrong");
    if (optval(s, "-r") == "0" && !lead) return compare_minimal(g, ref->g, ref->s, Order{ref->s.n(), 0});
    size_t N = atoi(optval(s, "-N").c_str());   // print the first N elements only
    if (N && N < ref->g.size()) { vector<QPoly> f(ref->g.begin(), ref->g.begin() + N); return compare_basis(g, f, ref->s, Order{ref->s.n(), 0}, lead); }
    return compare_basis(g, ref->g, ref->s, Order{ref->s.n(), 0}, lead);
  });
}
// ------------------------------------------------------------------ C02 elimination
static bool gen_c02(Rng& r, Env& e, Case& c) {
  GenOpt g; bool qq = r.chance(1, 3); g.ch = qq ? 0 : gen_prime(r, r.pick(vector<int>{8, 16, 31, 30, 30, 30})); g.size = (int)r.range(1, 2); g.minv = 2; g.maxv = (int)r.range(2, 5); if (qq) g.bigcoef = r.chance(1, 3);
  Sys s; do s = gen_sys(r, g, &c.meta["family"]); while (s.n() < 2); u32 uv = 0; bool un = qq && want_unlucky(r) && unlucky(r, s, uv); if (un) c.meta["unlucky"] = std::to_string(uv); string t = s.text(&r); int k = (int)r.range(1, s.n() - 1);
  if (!ref_gb(t, k, qq ? CAP_QQ : CAP_FP)->ok) return false;
  int n = (int)r.range(2, 4);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-e", std::to_string(k), "-g", "2"}); if (!qq && r.chance(1, 8)) sc.argv.insert(sc.argv.end(), {"-r", "0"}); stdopts(r, sc, qq || g.ch >= (1u << 30)); if (un && r.chance(5, 6)) sc.rand_over.push_back({0, uv}); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c02(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    int k = atoi(optval(s, "-e").c_str());
    auto ref = ref_gb(src_of(s), k, CAP_FP * 20); if (!ref->ok) return Verdict();
    GBOut g = parse_gb(output_of(s, r)); Order o{ref->s.n(), k};
    if (!g.ok) return bad("malformed", g.why);
    if (ref->s.ch) return optval(s, "-r") == "0" ? compare_minimal(g, ref->g, ref->s, o) : compare_basis(g, ref->g, ref->s, o, false);
    // over QQ: the elimination ideal's basis in the remaining variables
    vector<string> rest(ref->s.vars.begin() + k, ref->s.vars.end());
    vector<QPoly> rg; for (auto& p : ref->g) { bool in = true; for (int i = 0; i < k; i++) if (p[0].m.e[i]) in = false; if (in) { QPoly q; for (auto& t : p) { Mon m; for (int i = k; i < ref->s.n(); i++) m.e[i - k] = t.m.e[i]; m.deg = t.m.deg; q.push_back({m, t.c}); } rg.push_back(q); } }
    if (g.vars != rest) return bad("malformed", "variable order line wrong");
    Sys rs; rs.ch = 0; rs.vars = rest; return compare_basis(g, rg, rs, Order{(int)rest.size(), 0}, false);
  });
}
// ------------------------------------------------------------------ C03 GB over QQ
static bool gen_c03(Rng& r, Env& e, Case& c) {
  GenOpt g; g.ch = 0; g.size = (int)r.range(1, 2); g.maxv = (int)r.range(2, 4);
  Sys s = gen_sys(r, g, &c.meta["family"]); u32 uv = 0; bool un = want_unlucky(r) && unlucky(r, s, uv); if (un) c.meta["unlucky"] = std::to_string(uv); string t = s.text(&r);
  if (!ref_gb(t, 0, CAP_QQ)->ok) return false;
  int n = (int)r.range(2, 4);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-g", r.chance(1, 6) ? "1" : "2"}); if (r.chance(1, 8)) sc.argv.insert(sc.argv.end(), {"-r", "0"}); else if (r.chance(1, 8)) sc.argv.insert(sc.argv.end(), {"-N", std::to_string(r.range(1, 4))}); stdopts(r, sc, true); if (un && r.chance(5, 6)) sc.rand_over.push_back({0, uv}); c.runs.push_back(sc); }
  return true;
}
// ------------------------------------------------------------------ C04/C05/C07 solving over QQ
static Verdict verd(const string& w) { return w.empty() ? Verdict() : !w.compare(0, 6, "NONSEP") ? bad("nonsep", w) : !w.compare(0, 6, "COARSE") ? bad("coarse", w) : bad("wrong", w); }
struct RQ { bool ok = false; Sys s; RefQ r; };
static std::shared_ptr<RQ> refq(const string& t, bool real, u64 capn) {
  static Cache<RQ> C; return C.get(string(real ? "R" : "N") + t, [&](RQ& q) { if (!parse_sys(t, q.s)) return; OpCap cap{capn}; try { ref_qq(q.s, cap, q.r, real, 40); q.ok = true; } catch (CapHit&) {} });
}
struct RP { bool ok = false; Sys s; RefP r; vector<QPoly> lg; };
static std::shared_ptr<RP> refp(const string& t, u64 capn) { static Cache<RP> C; return C.get(t, [&](RP& q) { if (!parse_sys(t, q.s)) return; OpCap cap{capn}; try { ref_fp(q.s, cap, q.r, 60); for (auto& g : q.r.gb) q.lg.push_back(lift(g)); q.ok = true; } catch (CapHit&) {} }); }
static void solveopts(Rng& r, Scenario& sc) { if (r.chance(1, 5)) { sc.argv.push_back("-d"); sc.argv.push_back(std::to_string(r.range(0, 4))); } if (r.chance(1, 8)) { sc.argv.push_back("-c"); sc.argv.push_back(std::to_string(r.range(0, 1))); } }
static bool gen_c04(Rng& r, Env& e, Case& c) {
  GenOpt g; g.ch = 0; g.size = (int)r.range(1, 2); g.maxv = (int)r.range(2, 4); g.zerodim = r.chance(9, 10);
  Sys s = gen_sys(r, g, &c.meta["family"]); u32 uv = 0; bool un = want_unlucky(r) && unlucky(r, s, uv); if (un) c.meta["unlucky"] = std::to_string(uv); string t = s.text(&r);
  if (!refq(t, false, CAP_QQ)->ok) return false;
  int n = (int)r.range(2, 3);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-P", "2"}); solveopts(r, sc); if (r.chance(1, 5)) { sc.argv.push_back("-L"); sc.argv.push_back("1"); } stdopts(r, sc, true); if (un && r.chance(5, 6)) sc.rand_over.push_back({0, uv}); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c04(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    auto ref = refq(src_of(s), false, CAP_QQ * 20); if (!ref->ok) return Verdict();
    SolveOut o = parse_solve(output_of(s, r), 0); if (!o.ok) return bad("malformed", o.why);
    if (o.kind == 0 && !o.has_param) return bad("malformed", "no parametrization printed");
    string w = check_param(ref->s, o, ref->r.dim, ref->r.D, ref->r.distinct, ref->r.gb); return verd(w);
  });
}
static bool gen_c05(Rng& r, Env& e, Case& c) {
  if (r.chance(1, 120)) {
    string full, ref; bigdeg(r, full, ref); if (!refq(ref, true, CAP_QQ)->ok) return false; c.meta["family"] = "bigdegree"; c.meta["noshrink"] = "1";
    for (int i = 0; i < 2; i++) { Scenario sc; base_cli(sc, full); sc.files.push_back({"ref.ms", ref}); if (r.chance(1, 2)) { sc.argv.push_back("-p"); sc.argv.push_back(std::to_string(r.pick(vector<int>{32, 64, 200}))); } solveopts(r, sc); stdopts(r, sc, true); c.runs.push_back(sc); }
    return true;
  }
  GenOpt g; g.ch = 0; g.size = (int)r.range(1, 2); g.maxv = (int)r.range(1, 4); g.zerodim = true;
  Sys s = gen_sys(r, g, &c.meta["family"]); u32 uv = 0; bool un = want_unlucky(r) && unlucky(r, s, uv); if (un) c.meta["unlucky"] = std::to_string(uv); string t = s.text(&r);
  auto q = refq(t, true, CAP_QQ); if (!q->ok) return false; if (q->r.dim != D_ZERO && !r.chance(1, 8)) return false;
  int n = (int)r.range(2, 3);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); if (r.chance(1, 3)) { sc.argv.push_back("-P"); sc.argv.push_back(std::to_string(r.range(0, 1))); } if (r.chance(1, 2)) { sc.argv.push_back("-p"); sc.argv.push_back(std::to_string(r.pick(vector<int>{1, 4, 10, 32, 64, 128, 200, 300}))); } solveopts(r, sc); stdopts(r, sc, true); if (un && r.chance(5, 6)) sc.rand_over.push_back({0, uv}); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c05(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    auto ref = refq(src_of(s), true, CAP_QQ * 20); if (!ref->ok) return Verdict();
    SolveOut o = parse_solve(output_of(s, r), 0); if (!o.ok) return bad("malformed", o.why);
    string w, w2; int prec = hasopt(s, "-p") ? atoi(optval(s, "-p").c_str()) : 128;
    if (o.has_param) w2 = check_param(ref->s, o, ref->r.dim, ref->r.D, ref->r.distinct, ref->r.gb);
    w = check_boxes(ref->s, o, ref->r, prec);
    Verdict a = verd(w), b = verd(w2); return a.bad && a.cls != "nonsep" && !(a.cls == "coarse" && b.bad && b.cls != "nonsep") ? a : b.bad ? b : a;
  });
}
// ------------------------------------------------------------------ C06 parametrization over GF(p)
static bool gen_c06(Rng& r, Env& e, Case& c) {
  GenOpt g; g.ch = gen_prime(r, 29); g.size = (int)r.range(1, 3); g.maxv = (int)r.range(2, 5); g.zerodim = r.chance(9, 10);
  Sys s = gen_sys(r, g, &c.meta["family"]); string t = s.text(&r);
  if (!refp(t, CAP_FP)->ok) return false;
  int n = (int)r.range(2, 4);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); solveopts(r, sc); stdopts(r, sc, g.ch >= (1u << 30)); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c06(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    auto ref = refp(src_of(s), CAP_FP * 20); if (!ref->ok) return Verdict();
    SolveOut o = parse_solve(output_of(s, r), ref->s.ch); if (!o.ok) return bad("malformed", o.why);
    if (o.kind == 0 && !o.has_param) return bad("malformed", "no parametrization printed");
    string w = check_param(ref->s, o, ref->r.dim, ref->r.D, ref->r.distinct, ref->lg); return verd(w);
  });
}
// ------------------------------------------------------------------ C07 classification
static bool gen_c07(Rng& r, Env& e, Case& c) {
  GenOpt g; bool qq = r.chance(1, 2); g.ch = qq ? 0 : gen_prime(r, 29); g.size = (int)r.range(1, 2); g.maxv = (int)r.range(1, 5); g.bigcoef = r.chance(1, 3);
  g.family = r.pick(vector<int>{1, 1, 6, 6, 7, 7, 9, 12, 15, 16, 8, 17, -1});
  Sys s = gen_sys(r, g, &c.meta["family"]); u32 uv = 0; bool un = qq && want_unlucky(r) && unlucky(r, s, uv); if (un) c.meta["unlucky"] = std::to_string(uv); string t = s.text(&r);
  if (qq) { if (!refq(t, false, CAP_QQ)->ok) return false; } else if (!refp(t, CAP_FP)->ok) return false;
  int n = (int)r.range(2, 4);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); if (qq && r.chance(1, 2)) sc.argv.insert(sc.argv.end(), {"-P", std::to_string(r.range(0, 2))}); stdopts(r, sc, qq || g.ch >= (1u << 30)); if (un && r.chance(5, 6)) sc.rand_over.push_back({0, uv}); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c07(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    string t = src_of(s); Sys sy; parse_sys(t, sy); Dim d;
    if (sy.ch) { auto ref = refp(t, CAP_FP * 20); if (!ref->ok) return Verdict(); d = ref->r.dim; } else { auto ref = refq(t, false, CAP_QQ * 20); if (!ref->ok) return Verdict(); d = ref->r.dim; }
    SolveOut o = parse_solve(output_of(s, r), sy.ch); if (!o.ok) return bad("malformed", o.why);
    int want = d == D_EMPTY ? -1 : d == D_POS ? 1 : 0;
    if (o.kind != want) return bad("wrong", "output kind " + std::to_string(o.kind) + ", expected " + std::to_string(want));
    return Verdict();
  });
}
// ------------------------------------------------------------------ C08 normal forms
static bool gen_c08(Rng& r, Env& e, Case& c) {
  GenOpt g; g.ch = gen_prime(r, r.pick(vector<int>{8, 16, 31, 30, 30})); g.size = (int)r.range(1, 3); g.maxv = (int)r.range(2, 5);
  Sys s = gen_sys(r, g, &c.meta["family"]); int k = (int)r.range(1, 4);
  Sys base = s; string bt = base.text();
  auto rb = ref_gb(bt, 0, CAP_FP); if (!rb->ok) return false;
  // -i 1: the generators are a basis already (in any order and scaling, possibly with redundant elements)
  bool isgb = r.chance(1, 4) && !rb->g.empty() && rb->g.size() < 30;
  if (isgb) { AF A; A.f.p = g.ch; A.o = Order{s.n(), 0}; s.polys.clear(); for (auto& p : rb->g) { FPoly q = to_fp(p, A); u64 u = r.chance(1, 2) ? 1 : (u64)r.range(1, g.ch - 1); for (auto& t : q) t.c = A.f.mul(t.c, u); s.polys.push_back(lift(q)); } for (size_t i = s.polys.size(); i > 1; i--) std::swap(s.polys[i - 1], s.polys[r.below(i)]); }
  for (int i = 0; i < k; i++) { QPoly p = rnd_poly(r, s.n(), (int)r.range(1, 6), (int)r.range(1, 8), 2, g.ch, false); AF A; A.f.p = g.ch; A.o = Order{s.n(), 0}; p = lift(to_fp(p, A)); if (p.empty()) { Mon m; m.e[0] = 2; m.deg = 2; p.push_back({m, qi(1)}); } if (r.chance(1, 5)) p = s.polys[r.below(s.polys.size())]; s.polys.push_back(p); }
  string t = s.text(&r); int n = (int)r.range(2, 4); c.meta["k"] = std::to_string(k);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-n", std::to_string(k)}); if (isgb && r.chance(4, 5)) sc.argv.insert(sc.argv.end(), {"-i", "1"}); stdopts(r, sc, g.ch >= (1u << 30)); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c08(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    Sys sy; string t = src_of(s); if (!parse_sys(t, sy)) return Verdict(); int k = atoi(optval(s, "-n").c_str()); if ((int)sy.polys.size() <= k) return Verdict();
    Sys b = sy; b.polys.resize(sy.polys.size() - k); auto ref = ref_gb(b.text(), 0, CAP_FP * 20); if (!ref->ok) return Verdict();
    AF A; A.f.p = sy.ch; A.o = Order{sy.n(), 0}; vector<FPoly> G; for (auto& p : ref->g) G.push_back(to_fp(p, A));
    GBOut g = parse_list(output_of(s, r), sy.vars); if (!g.ok) return bad("malformed", g.why);
    if ((int)g.polys.size() != k) return bad("wrong", "printed " + std::to_string(g.polys.size()) + " normal forms, expected " + std::to_string(k));
    for (int i = 0; i < k; i++) { FPoly nf = A.nf(to_fp(sy.polys[sy.polys.size() - k + i], A), G); FPoly got = to_fp(g.polys[i], A); if (!A.same(nf, got)) return bad("wrong", "normal form #" + std::to_string(i + 1) + " is " + poly_str(lift(got), sy.vars) + ", reference " + poly_str(lift(nf), sy.vars)); }
    return Verdict();
  });
}
// ------------------------------------------------------------------ C09 saturation
static vector<FPoly> sat_ref(const Sys& s, OpCap& cap) {
  int n = s.n(); AF A; A.f.p = s.ch; A.o = Order{n + 1, 1}; A.cap = &cap; vector<FPoly> in;
  auto sh = [&](const FPoly& p, int t) { FPoly r; for (auto& x : p) { Mon m; for (int i = 0; i < n; i++) m.e[i + 1] = x.m.e[i]; m.e[0] = t; m.deg = x.m.deg + t; r.push_back({m, x.c}); } return r; };
  AF B; B.f.p = s.ch; B.o = Order{n, 0};
  for (size_t i = 0; i + 1 < s.polys.size(); i++) { FPoly p = sh(to_fp(s.polys[i], B), 0); A.norm(p); in.push_back(p); }
  FPoly q = sh(to_fp(s.polys.back(), B), 1); FPoly one; one.push_back({Mon(), s.ch - 1}); q.insert(q.end(), one.begin(), one.end()); A.norm(q); in.push_back(q);
  vector<FPoly> out; for (auto& g : A.gb(in)) if (!g[0].m.e[0]) { FPoly r; for (auto& x : g) { Mon m; for (int i = 0; i < n; i++) m.e[i] = x.m.e[i + 1]; m.deg = x.m.deg; r.push_back({m, x.c}); } out.push_back(r); }
  return out;
}
struct RS { bool ok = false; Sys s; vector<QPoly> g; };
static std::shared_ptr<RS> refs(const string& t, u64 capn) { static Cache<RS> C; return C.get(t, [&](RS& q) { if (!parse_sys(t, q.s) || q.s.polys.size() < 2) return; OpCap cap{capn}; try { for (auto& p : sat_ref(q.s, cap)) q.g.push_back(lift(p)); q.ok = true; } catch (CapHit&) {} }); }
static bool gen_c09(Rng& r, Env& e, Case& c) {
  GenOpt g; g.ch = gen_prime(r, r.pick(vector<int>{31, 30, 30})); g.size = (int)r.range(1, 2); g.maxv = (int)r.range(2, 4);
  Sys s = gen_sys(r, g, &c.meta["family"]); QPoly f; AF A; A.f.p = g.ch; A.o = Order{s.n(), 0};
  if (r.chance(1, 2)) { Mon m; m.e[r.below(s.n())] = 1; m.deg = 1; f.push_back({m, qi(1)}); } else f = lift(to_fp(rnd_poly(r, s.n(), (int)r.range(1, 2), (int)r.range(1, 3), 1, g.ch, false), A));
  if (f.empty()) return false;
  if (r.chance(2, 3)) { for (auto& p : s.polys) if (r.chance(1, 2)) { QPoly q; for (auto& a : p) for (auto& b : f) q.push_back({mmul(a.m, b.m), QC().mul(a.c, b.c)}); p = lift(to_fp(q, A)); } }
  s.polys.push_back(f); string t = s.text(&r);
  if (!refs(t, CAP_FP)->ok) return false;
  int n = (int)r.range(2, 3);
  for (int i = 0; i < n; i++) { Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-S", "-g", "2"}); stdopts(r, sc, g.ch >= (1u << 30)); c.runs.push_back(sc); }
  return true;
}
static Verdict judge_c09(const Case& c, const vector<Result>& rs, Env&) {
  string first; int fr = -1; string fkey;
  Verdict inc; int run = -1; Verdict v = each(c, rs, [&](const Scenario& s, const Result& r) {
    auto ref = refs(src_of(s), CAP_FP * 20); if (!ref->ok) return Verdict();
    string out = output_of(s, r); size_t h = out.find("#Reduced"); if (h != string::npos && optval(s, "-o").empty()) out = out.substr(h);   // informational lines on stdout
    run++; GBOut g = parse_gb(out); if (!g.ok) return bad("malformed", g.why);
    // the same options and input under another schedule, team, clock or draw print the same basis
    { size_t b = out.find("\n["); string body = b == string::npos ? out : out.substr(b); string key = optval(s, "-m"); if (fr < 0) { first = body; fr = run; fkey = key; } else if (fkey == key && body != first) return bad("disagree", "two runs on the same input print different bases"); }
    Verdict v = compare_basis(g, ref->g, ref->s, Order{ref->s.n(), 0}, false);
    if (!v.bad) return v;
    AF A; A.f.p = ref->s.ch; A.o = Order{ref->s.n(), 0}; OpCap cap{CAP_FP * 20}; A.cap = &cap; vector<FPoly> J, S;
    for (auto& p : ref->g) S.push_back(to_fp(p, A));
    for (auto& p : g.polys) { FPoly q = to_fp(p, A); if (q.empty()) return bad("wrong", "zero element in the basis"); A.monic(q); J.push_back(q); }
    try {
      for (size_t i = 0; i < J.size(); i++) if (!A.nf(J[i], S).empty()) return bad("wrong", "basis element #" + std::to_string(i + 1) + " is not in the saturation");
      if (!A.same(A.gb(J), J)) return bad("wrong", "the printed basis is not a reduced Groebner basis");
      for (size_t i = 0; i + 1 < ref->s.polys.size(); i++) if (!A.nf(to_fp(ref->s.polys[i], A), J).empty()) return bad("wrong", "generator #" + std::to_string(i + 1) + " is not in the printed ideal");
    } catch (CapHit&) { return v; }
    if (!inc.bad) { inc = v; inc.run = run; inc.cls = "incomplete"; inc.msg = "the printed ideal contains the input ideal but is smaller than its saturation"; }
    return Verdict();
  });
  return v.bad ? v : inc;
}

// ------------------------------------------------------------------ C13 library histories
static string numarg(const string& line, const string& k, const string& d = "") { size_t p = line.find(" " + k + "="); if (p == string::npos) return d; p += k.size() + 2; return line.substr(p, line.find(' ', p) - p); }
static bool gen_c13(Rng& r, Env& e, Case& c) {
  int nsys = (int)r.range(1, 3); vector<string> texts; vector<int> kind; vector<int> nn, kk, isgb;
  for (int i = 0; i < nsys; i++) {
    GenOpt g; int kd = (int)r.below(4); g.ch = kd < 2 ? gen_prime(r, r.pick(vector<int>{8, 16, 31, 30, 30})) : 0; g.size = (int)r.range(1, 2); g.maxv = (int)r.range(2, 4); g.bigcoef = r.chance(1, 3); if (kd == 3) { g.zerodim = r.chance(9, 10); g.maxv = (int)r.range(1, 3); g.minv = 1; }
    Sys s = gen_sys(r, g); int k = 0; string t = s.text();
    if (kd == 1) { k = (int)r.range(1, 3); auto rg = ref_gb(t, 0, CAP_FP / 3); if (!rg->ok) return false; isgb.push_back(0); if (r.chance(1, 3)) { s.polys = rg->g; for (size_t q = s.polys.size(); q > 1; q--) std::swap(s.polys[q - 1], s.polys[r.below(q)]); isgb.back() = 1; } for (int q = 0; q < k; q++) { QPoly p = rnd_poly(r, s.n(), (int)r.range(1, 5), (int)r.range(1, 6), 2, g.ch, false); AF A; A.f.p = g.ch; A.o = Order{s.n(), 0}; p = lift(to_fp(p, A)); if (p.empty()) { Mon m; m.e[0] = 2; m.deg = 2; p.push_back({m, qi(1)}); } s.polys.push_back(p); } t = s.text(); }
    else if (kd == 3) { if (!refq(t, true, CAP_QQ / 2)->ok) return false; }
    else if (!ref_gb(t, 0, kd == 0 ? CAP_FP / 3 : CAP_QQ / 2)->ok) return false;
    texts.push_back(t); kind.push_back(kd); isgb.resize(texts.size()); nn.push_back(s.n()); kk.push_back(k);
  }
  int n = (int)r.range(1, 2), ops = (int)r.range(2, 6); vector<string> base;
  for (int i = 0; i < ops; i++) {
    if (i && r.chance(1, 6)) { base.push_back("free " + std::to_string(r.below(i))); continue; }
    int q = (int)r.below(nsys); string f = "s" + std::to_string(q), o;
    if (kind[q] == 0) { o = "f4 " + f; int w = (int)r.below(4); if (w == 0 && nn[q] > 1) { int el = (int)r.range(1, nn[q] - 1); if (ref_gb(texts[q], el, CAP_FP / 3)->ok) o += " elim=" + std::to_string(el); } }
    else if (kind[q] == 1) { o = "nf " + f + " k=" + std::to_string(kk[q]) + " isgb=" + std::to_string(isgb[q]); }
    else if (kind[q] == 2) { o = "gbqq " + f; if (nn[q] > 1 && r.chance(1, 3)) { int el = (int)r.range(1, nn[q] - 1); if (ref_gb(texts[q], el, CAP_QQ / 2)->ok) o += " elim=" + std::to_string(el); } }
    else o = "julia " + f + " param=" + std::to_string(r.range(0, 2)) + " prec=" + std::to_string(r.pick(vector<int>{64, 128, 200}));
    base.push_back(o);
  }
  for (int i = 0; i < n; i++) {
    Scenario sc; sc.mode = 1; sc.fuel = FUEL; for (int q = 0; q < nsys; q++) sc.files.push_back({"s" + std::to_string(q), texts[q]});
    for (auto& b : base) { string o = b; if (o[0] != 'f' || o[1] == '4') { Sys s; parse_sys(texts[o[o.find(' ') + 2] - '0'], s); bool prob = s.ch == 0 || s.ch >= (1u << 30); o += " thr=" + std::to_string(r.pick(vector<int>{1, 2, 3, 4, 8})) + " la=" + std::to_string(r.pick(prob ? vector<int>{1, 2, 2, 42, 44} : vector<int>{1, 2})) + " ht=" + std::to_string(r.pick(vector<int>{4, 8, 12, 12, 14})); if (r.chance(1, 4)) o += " pairs=" + std::to_string(r.pick(vector<int>{1, 2, 5, 100})); if (r.chance(1, 5)) o += " reset=" + std::to_string(r.range(1, 3)); if (s.ch && r.chance(1, 3)) o += " neg=1"; if (r.chance(1, 2)) o += " file=0"; } sc.argv.push_back(o); }
    swarm(r, sc); if (r.chance(1, 6)) sc.variant = 1; c.runs.push_back(sc);
  }
  return true;
}
static Verdict judge_c13(const Case& c, const vector<Result>& rs, Env&) {
  return each(c, rs, [](const Scenario& s, const Result& r) {
    const string* f = r.file("api.out"); if (!f) return bad("malformed", "no result of the history");
    std::istringstream is(*f); string line, w; 
    while (std::getline(is, line)) {
      if (line == "done") return Verdict();
      if (!line.compare(0, 7, "changed")) return bad("result-changed", "result of call " + line.substr(8) + " was modified by a later call");
      if (!line.compare(0, 5, "freed")) continue;
      if (line.compare(0, 3, "op ")) return bad("malformed", "unexpected record " + line);
      std::istringstream l(line); size_t idx; string op, file; l >> w >> idx >> op >> file; string call; { size_t k = 0; for (auto& a : s.argv) { if (!a.compare(0, 5, "free ")) continue; if (k++ == idx) call = a; } }
      string text = first_file(s, file.c_str()); Sys sy; if (!parse_sys(text, sy)) return Verdict(); string where = "call " + std::to_string(idx) + " (" + op + "): "; Verdict v;
      if (op == "julia") {
        int ld, nv, dim, dq, nreal, par; is >> w >> ld >> nv >> dim >> dq >> nreal >> par; auto ref = refq(text, true, CAP_QQ * 20); SolveOut o; o.ok = true; vector<vector<Q>> pl;
        auto num = [&]() { string z; is >> z; Q q; fmpq_set_str(q.v, z.c_str(), 10); return q; };
        if (par) {
          o.vars.resize(ld - 1); for (auto& x : o.vars) is >> x; int lf; is >> lf; for (int i = 0; i < lf; i++) o.form.push_back(num());
          for (int i = 0; i < ld; i++) { int n; is >> n; vector<Q> p; for (int j = 0; j < n; j++) p.push_back(num()); pl.push_back(p); }
          o.has_param = true; o.nv = ld - 1; o.deg = dq; o.w = pl[0]; o.d = pl[1]; for (int i = 2; i < ld; i++) { o.cf.push_back(pl[i].back()); pl[i].pop_back(); o.v.push_back(pl[i]); }
          for (int i = 0; i < nreal; i++) { Box b; for (int k = 0; k < sy.n(); k++) { Q q[2]; for (int h = 0; h < 2; h++) { q[h] = num(); int e; is >> e; if (e >= 0) fmpq_div_2exp(q[h].v, q[h].v, e); else fmpq_mul_2exp(q[h].v, q[h].v, -e); } b.c.push_back({q[0], q[1]}); } o.boxes.push_back(b); } 
        }
        bool real = numarg(call, "param") != "2"; o.has_boxes = real;
        o.kind = dim > 0 ? 1 : (dim == 0 && dq == 0) || dim < 0 ? -1 : 0; std::getline(is, line);
        if (ref->ok) {
          if (o.kind == 0 && !par) v = bad("wrong", where + "no parametrization returned");
          else { SolveOut op2 = o; bool noform = (int)o.vars.size() == sy.n() + 1 && o.form.empty(); if (noform) op2.has_param = false; string e = check_param(sy, op2, ref->r.dim, ref->r.D, ref->r.distinct, ref->r.gb); o.has_param = o.has_param && numarg(call, "param") != "0"; /* without a requested parametrization the points follow the input's variables */ if (e.empty() && real) e = check_boxes(sy, o, ref->r, atoi(numarg(call, "prec", "64").c_str())); if (!e.empty()) { v = verd(e); v.msg = where + v.msg; } }
        }
      } else {
        i64 nt; int ld; is >> w >> nt >> ld; GBOut g; g.ok = true; g.vars = sy.vars; i64 tot = 0;
        for (int i = 0; i < ld; i++) { int n; is >> n; tot += n; QPoly p; for (int j = 0; j < n; j++) { string z; is >> z; Q q; fmpq_set_str(q.v, z.c_str(), 10); Mon m; for (int k = 0; k < sy.n(); k++) { int e; is >> e; m.e[k] = e; m.deg += e; } if (!fmpq_is_zero(q.v)) p.push_back({m, q}); } if (!p.empty() || op == "nf") g.polys.push_back(p); }
        std::getline(is, line); if (!is) return bad("malformed", where + "result not readable");
        if (nt != tot) v = bad("malformed", where + "returned number of terms is wrong");
        int elim = atoi(numarg(call, "elim", "0").c_str()), ord = atoi(numarg(call, "ord", "0").c_str()); Order o{sy.n(), ord == 1 ? -1 : elim};
        if (op == "nf") {
          int k = atoi(numarg(call, "k", "1").c_str()); Sys b = sy; b.polys.resize(sy.polys.size() - k); auto ref = ref_gb(b.text(), 0, CAP_FP * 20);
          if (ref->ok) { AF A; A.f.p = sy.ch; A.o = Order{sy.n(), 0}; vector<FPoly> G; for (auto& p : ref->g) G.push_back(to_fp(p, A)); if ((int)g.polys.size() != k) v = bad("wrong", where + "wrong number of normal forms"); for (int i = 0; i < k && !v.bad; i++) if (!A.same(A.nf(to_fp(sy.polys[sy.polys.size() - k + i], A), G), to_fp(g.polys[i], A))) v = bad("wrong", where + "normal form #" + std::to_string(i + 1) + " is wrong"); }
        } else {
          auto ref = ref_gb(text, o.k, CAP_FP * 20);
          if (ref->ok && !v.bad) { vector<QPoly> rg; for (auto& p : ref->g) { bool in = true; if (op == "gbqq") for (int i = 0; i < elim; i++) if (p[0].m.e[i]) in = false; if (in) rg.push_back(p); }
            // the order of the elements is not part of the interface
            AQ A; A.o = o; for (auto& p : g.polys) p = reorder(p, A); auto lt = [&](const QPoly& a, const QPoly& b) { return !a.empty() && !b.empty() && o.cmp(a[0].m, b[0].m) < 0; }; std::sort(g.polys.begin(), g.polys.end(), lt); std::sort(rg.begin(), rg.end(), lt);
            v = compare_basis(g, rg, sy, o, false); if (v.bad) v.msg = where + v.msg; }
        }
      }
      if (v.bad) return v;
      std::getline(is, line); if (line == "input-changed") { return bad("input-changed", where + "the caller's input was modified"); }
      if (line != "end") { return bad("malformed", where + "record does not end: " + line); }
    }
    return bad("malformed", "the history did not finish");
  });
}

// ------------------------------------------------------------------ C14 larger systems
static const u64 CAP_BIG = 40000000, QPRIME = 2305843009213693951ULL;
struct BigRef { bool ok = false; Sys s; vector<FPoly> g; };
// Groebner basis of the system modulo p (the system's own prime, or a large one over QQ)
static std::shared_ptr<BigRef> big_ref(const string& t, u64 p, int k) {
  static Cache<BigRef> C; return C.get(std::to_string(p) + "/" + std::to_string(k) + "|" + t, [&](BigRef& b) {
    if (!parse_sys(t, b.s)) return; OpCap cap{CAP_BIG}; AF A; A.f.p = p; A.o = Order{b.s.n(), k}; A.cap = &cap; vector<FPoly> in; for (auto& q : b.s.polys) in.push_back(to_fp(q, A));
    try { b.g = A.gb(in); b.ok = true; } catch (CapHit&) {} });
}
static bool gen_c14(Rng& r, Env& e, Case& c) {
  int kind = (int)r.pick(vector<int>{0, 0, 1, 2, 3}); // 0 basis GF(p), 1 basis QQ, 2 solving QQ, 3 solving GF(p)
  if (r.chance(1, 8)) kind = 4;                        // elimination over GF(p)
  u64 ch = kind == 0 || kind == 4 ? gen_prime(r, r.pick(vector<int>{8, 16, 16, 31, 30, 30, 30})) : kind == 3 ? gen_prime(r, 29) : 0; if (ch && ch < 100) ch = 251;
  Sys s = gen_big(r, ch, kind >= 2 && kind < 4, &c.meta["family"]); string t = s.text(); int el = kind == 4 ? (int)r.range(1, s.n() / 2) : 0;
  c.meta["kind"] = std::to_string(kind); c.meta["noshrink"] = "1"; int n = (int)r.range(2, 4);
  // the reference also keeps the simulated computations to a reasonable size
  u64 p = ch ? ch : QPRIME; auto b = big_ref(t, p, el); if (!b->ok) return false;
  if (kind == 2 || kind == 3) { Dim d; int D, di; if (!facts_fp(b->s, p, b->g, kind == 2 ? 36 : 80, d, D, di)) return false; }
  if (kind == 1) { size_t terms = 0; for (auto& q : b->g) terms += q.size(); if (terms > 1500) return false; }
  for (int i = 0; i < n; i++) {
    Scenario sc; base_cli(sc, t); sc.fuel = 3000000000ULL; sc.cpu_s = 100;
    if (kind < 2 || kind == 4) { sc.argv.insert(sc.argv.end(), {"-g", "2"}); if (el) sc.argv.insert(sc.argv.end(), {"-e", std::to_string(el)}); } else if (kind == 2) sc.argv.insert(sc.argv.end(), {"-P", r.chance(2, 3) ? "1" : "0"});
    if (kind >= 2 && kind < 4) solveopts(r, sc);
    stdopts(r, sc, !ch || ch >= (1u << 30)); if (sc.sched_gap < 100) sc.sched_gap = 100 * (1 + sc.sched_gap % 7); c.runs.push_back(sc);
  }
  return true;
}
static Verdict judge_c14(const Case& c, const vector<Result>& rs, Env&) {
  int kind = atoi(c.meta.at("kind").c_str()); string first; int fr = -1, nb = -1, idx = -1;
  for (auto& r : rs) if (r.end == E_FUEL || r.end == E_CPU || r.end == E_OOM) return Verdict(); // too large to simulate; termination is judged elsewhere
  return each(c, rs, [&](const Scenario& s, const Result& r) {
    idx++; string t = first_file(s, "in.ms"); Sys sy; parse_sys(t, sy); u64 p = sy.ch ? sy.ch : QPRIME; int el = hasopt(s, "-e") ? atoi(optval(s, "-e").c_str()) : 0; auto b = big_ref(t, p, el); if (!b->ok) return Verdict();
    string out = output_of(s, r);
    if (kind < 2 || kind == 4) {
      GBOut g = parse_gb(out); if (!g.ok) return bad("malformed", g.why); AF A; A.f.p = p; A.o = Order{sy.n(), el};
      size_t h = out.find("\n["); string body = h == string::npos ? out : out.substr(h);
      if (fr < 0) { fr = idx; first = body; } else if (body != first) return bad("disagree", "two runs on the same input print different bases");
      if (g.polys.size() != b->g.size()) return bad("wrong", "basis has " + std::to_string(g.polys.size()) + " elements, reference has " + std::to_string(b->g.size()));
      for (size_t i = 0; i < g.polys.size(); i++) { FPoly q = to_fp(g.polys[i], A); if (q.empty()) return bad("wrong", "zero element"); A.monic(q); if (!A.same(q, b->g[i])) return bad("wrong", "basis element #" + std::to_string(i + 1) + " differs from the reference" + (sy.ch ? "" : " modulo a large prime")); }
      return Verdict();
    }
    SolveOut o = parse_solve(out, sy.ch); if (!o.ok) return bad("malformed", o.why); Dim d; int D, di; if (!facts_fp(sy, p, b->g, 1000, d, D, di)) return Verdict();
    vector<QPoly> lg; if (sy.ch) for (auto& g : b->g) lg.push_back(lift(g));
    struct Guard { ~Guard() { g_gb_for_prime = nullptr; } } guard; if (!sy.ch) g_gb_for_prime = [&](u64 q, vector<FPoly>& G) { auto x = big_ref(t, q, 0); if (!x->ok) return false; G = x->g; return true; };
    string w = check_param(sy, o, d, D, di, lg); Verdict v = verd(w); if (v.bad) return v;
    if (!sy.ch && d == D_ZERO) {
      if (nb < 0) nb = (int)o.boxes.size(); else if (D == di && nb != (int)o.boxes.size()) return bad("disagree", "two runs on the same input print different numbers of real solutions");
      if (o.has_param) { RefQ rq; rq.dim = d; rq.D = D; rq.distinct = di; bool rf = false; try { rf = real_from_param(sy, o, rq); } catch (CapHit&) {} if (rf) { v = verd(check_boxes(sy, o, rq, 128)); if (v.bad) return v; } }
    }
    return Verdict();
  });
}

// ------------------------------------------------------------------ C10 - C12 faults, C15 input language
struct Mix { const char* id; bool (*gen)(Rng&, Env&, Case&); int w; };
static const Mix mixes[] = {{"C01", gen_c01, 4}, {"C02", gen_c02, 3}, {"C03", gen_c03, 4}, {"C04", gen_c04, 2}, {"C05", gen_c05, 4}, {"C06", gen_c06, 3}, {"C07", gen_c07, 2}, {"C08", gen_c08, 2}, {"C09", gen_c09, 2}};
static bool gen_mix(Rng& r, Env& e, Case& c) {
  int tot = 0; for (auto& m : mixes) tot += m.w; int k = (int)r.below(tot); const Mix* m = mixes; while (k >= m->w) k -= m++->w;
  if (!m->gen(r, e, c)) return false;
  c.meta["kind"] = m->id; return c.runs.size() && first_file(c.runs[0], "ref.ms").empty();
}
static bool respell(Rng& r, Case& c, Scenario& sc, bool pad) {
  Sys s; if (!parse_sys(first_file(sc, "in.ms"), s)) return false; string ref, t = spell(r, s, ref, true, pad);
  for (auto& f : sc.files) if (f.first == "in.ms") f.second = t; sc.files.push_back({"ref.ms", ref}); return true;
}
// exponents near and above what can be represented (16 bits): a result must be right, otherwise the input is refused
static bool gen_huge(Rng& r, Case& c) {
  u64 ch = r.chance(1, 3) ? 0 : gen_prime(r, r.pick(vector<int>{8, 16, 31, 30})); int n = (int)r.range(1, 3); static const char* V[] = {"x", "y", "z"};
  u64 N = r.pick(vector<u64>{65535, 65536, 65537, 40000, 65530, 32768, 32767, 70000, 131072, 4294967296ull + 3, 65536 * 3 + 2, 1000}) , M = n > 1 && r.chance(1, 2) ? r.pick(vector<u64>{1, 2, 5, 25535, 25536, 32767, 32768, 65535}) : 0;
  if (!ch && N + M <= 65535) { N = 2 + N % 300; M %= 100; }   // large degrees take long over the rationals
  i64 a = ch ? 1 + r.below(ch - 1) : 1 + r.below(9), b = ch ? 1 + r.below(ch - 1) : 1 + r.below(9);
  string t; for (int i = 0; i < n; i++) t += string(i ? "," : "") + V[i]; t += "\n" + std::to_string(ch) + "\n" + std::to_string(a) + "*x^" + std::to_string(N) + (M ? "*y^" + std::to_string(M) : "") + "+" + std::to_string(b); if (n == 3) t += ",\nz-3"; t += "\n";
  c.meta["kind"] = "huge"; c.meta["noshrink"] = "1"; c.meta["N"] = std::to_string(N); c.meta["M"] = std::to_string(M);
  Scenario sc; base_cli(sc, t); sc.argv.insert(sc.argv.end(), {"-g", "2"}); stdopts(r, sc, ch == 0 || ch >= (1u << 30)); c.runs.push_back(sc); return true;
}
static Verdict judge_huge(const Case& c, const Result& r) {
  const Scenario& s = c.runs[0]; u64 N = std::stoull(c.meta.at("N")), M = std::stoull(c.meta.at("M")); string out = output_of(s, r);
  if (r.end != E_EXIT) { Verdict v; ended_ok(r, v); return v; }
  if (r.code) return out.empty() ? Verdict() : bad("wrong", "a result is printed although the computation was refused");
  GBOut g = parse_gb(out); if (!g.ok) return bad("malformed", g.why);
  if (N > 65535 || M > 65535 || N + M > 65535) return bad("wrong", "an input of degree " + std::to_string(N + M) + " got a result");
  Sys y; if (!parse_sys(src_of(s), y)) return Verdict(); Order o{y.n(), 0}; vector<QPoly> ref; for (size_t i = y.polys.size(); i-- > 0;) { QPoly q; canon(y.polys[i], y, o, q); ref.push_back(q); }
  return compare_basis(g, ref, y, o, false);
}
// a term which denotes nothing: the input has to be refused
static bool gen_malformed(Rng& r, Env& e, Case& c) {
  if (!gen_mix(r, e, c)) return false; Scenario sc = c.runs[r.below(c.runs.size())]; if (sc.mode) return false;
  string* t = nullptr; for (auto& f : sc.files) if (f.first == "in.ms") t = &f.second; Sys y; if (!t || !parse_sys(*t, y)) return false;
  const string &v = y.vars[r.below(y.n())], &w = y.vars[r.below(y.n())];
  vector<string> b = {"+" + v + "q_", "-3*" + v + v + "*" + w, "+2*zz_", "+" + v + "^-1", "-2" + v, "+" + v + "*3", "+1/0*" + v, "+" + v + "^", "+(" + v + "+1)*" + w, "-" + v + "**" + w, "+1.5*" + v, "+" + v + "^" + w, "+" + v + "^2^2", "+-" + v, "+3^2*" + v, "+" + v + "*", "+1//2*" + v, "-/2", "+" + v + "/2", "+ 7e2", "+" + v + ";"};
  vector<size_t> at; size_t p = t->find('\n'); p = t->find('\n', p + 1); for (size_t q = p; (q = t->find(",\n", q)) != string::npos; q++) at.push_back(q); size_t z = t->find_last_not_of(" \n\r\t:,"); at.push_back(z + 1);
  c.runs.clear(); c.meta["kind"] = "malformed"; c.meta["noshrink"] = "1"; t->insert(r.pick(at), r.pick(b)); c.runs.push_back(sc); return true;
}
static Verdict judge_malformed(const Case& c, const Result& r) {
  const Scenario& s = c.runs[0]; if (r.end != E_EXIT) { Verdict v; ended_ok(r, v); return v; }
  string on = optval(s, "-o"), was; for (auto& f : s.files) if (f.first == on) was = f.second; string out = on.empty() ? r.out : output_of(s, r);
  if (!r.code) return bad("wrong", "an input with a meaningless term was accepted");
  return out.empty() || out == was ? Verdict() : bad("wrong", "a result is printed although the input was refused");
}
static bool gen_c15(Rng& r, Env& e, Case& c) {
  if (r.chance(1, 40)) return gen_huge(r, c);
  if (r.chance(1, 30)) return gen_malformed(r, e, c);
  if (!gen_mix(r, e, c)) return false; c.meta["noshrink"] = "1"; if (c.runs.size() > 2) c.runs.resize(2);
  for (auto& sc : c.runs) { if (!respell(r, c, sc, false)) return false; int k = r.chance(1, 3) ? (int)r.range(1, 4) : 0; for (int i = 0; i < k; i++) sc.faults.push_back({F_READ_SHORT, r.below(8), r.next() % 997}); }
  return true;
}
static Verdict judge_c15(const Case& c, const vector<Result>& rs, Env& e) {
  if (c.meta.at("kind") == "huge") return judge_huge(c, rs[0]);
  if (c.meta.at("kind") == "malformed") return judge_malformed(c, rs[0]);
  Verdict v; const Prop* p = find_prop(c.meta.at("kind"));
  for (size_t i = 0; i < c.runs.size() && !v.bad; i++) { Case d; d.prop = p->id; d.meta = c.meta; d.runs = {c.runs[i]}; v = p->judge(d, {rs[i]}, e); v.run = (int)i; }
  if (v.cls == "nonsep" || v.cls == "coarse" || v.cls == "incomplete") return Verdict(); // listed findings of other properties, unrelated to reading
  return v;
}
static u64 near(Rng& r, u64 n) { return n < 2 ? r.below(n + 1) : r.chance(1, 4) ? n - 1 - r.below(std::min<u64>(n, 3)) : r.below(n); }
static bool gen_faults(Rng& r, Env& e, Case& c, int which) {
  if (!gen_mix(r, e, c)) return false; c.meta["noshrink"] = "1"; Scenario b = c.runs[r.below(c.runs.size())]; for (size_t i = 0; i + 1 < b.argv.size(); i++) if (b.argv[i] == "-v") { b.argv.erase(b.argv.begin() + i, b.argv.begin() + i + 2); break; } // the log contains timings
  if (which == 11 && !respell(r, c, b, r.chance(1, 2))) return false;
  if (r.chance(1, 2)) b.files.push_back({"keep.dat", "unrelated file\n"});
  c.runs.clear(); c.runs.push_back(b); Result r0 = e.run(b); if (r0.end != E_EXIT || r0.code) return false;
  int n = (int)r.range(2, 5);
  for (int i = 0; i < n; i++) {
    Scenario s = b; int k = r.chance(1, 4) ? 2 : 1; bool crash = false;
    for (int j = 0; j < k; j++) {
      int f; u64 at = 0;
      if (which == 10) f = r.pick(vector<int>{F_WRITE_ENOSPC, F_WRITE_ENOSPC, F_WRITE_ENOSPC_ONCE, F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_SHORT, F_CLOSE_FAIL, F_OPEN_FAIL, F_CRASH_WRITE, F_CRASH_STEP});
      else if (which == 11) f = r.pick(vector<int>{F_READ_EIO, F_READ_EIO, F_READ_SHORT, F_READ_SHORT, F_READ_SHORT, F_OPEN_FAIL});
      else f = r.pick(vector<int>{F_ALLOC_FAIL, F_ALLOC_FAIL, F_ALLOC_FAIL_PERSIST});
      switch (f) {
        case F_WRITE_ENOSPC: case F_WRITE_ENOSPC_ONCE: case F_WRITE_EIO: case F_WRITE_SHORT: case F_CRASH_WRITE: at = near(r, r0.nwrite); break;
        case F_READ_EIO: case F_READ_SHORT: at = near(r, r0.nread + 1); break;
        case F_OPEN_FAIL: at = near(r, r0.nopen); break;
        case F_CLOSE_FAIL: at = near(r, r0.nclose); break;
        case F_CRASH_STEP: at = r.chance(1, 3) ? r0.steps - 1 - r.below(std::min<u64>(r0.steps, 3000)) : r.below(r0.steps); break;
        default: at = r.chance(1, 3) ? r.below(std::min<u64>(r0.nalloc, 40)) : near(r, r0.nalloc);
      }
      s.faults.push_back({f, at, r.next() % 100003}); if (f == F_CRASH_WRITE || f == F_CRASH_STEP) { crash = true; break; }
    }
    c.runs.push_back(s);
    if (crash) { // restart on what the crash left behind
      Result rc = e.run(s); if (rc.end != E_CRASHPOINT) continue;
      Scenario q = b; q.files = rc.files; c.runs.push_back(q); c.meta["recovery" + std::to_string(c.runs.size() - 1)] = "1";
    }
  }
  return true;
}
static bool gen_c10(Rng& r, Env& e, Case& c) { return gen_faults(r, e, c, 10); }
static bool gen_c11(Rng& r, Env& e, Case& c) { return gen_faults(r, e, c, 11); }
static bool gen_c12(Rng& r, Env& e, Case& c) { return gen_faults(r, e, c, 12); }
static Verdict judge_faults(const Case& c, const vector<Result>& rs, Env&) {
  Verdict v; if (rs.empty()) return v; if (rs[0].end != E_EXIT || rs[0].code) return v; // judged by the other properties
  const Scenario& b = c.runs[0]; string want = output_of(b, rs[0]), on = optval(b, "-o"); bool alloc = c.prop == "C12";
  for (size_t i = 1; i < rs.size(); i++) {
    const Result& r = rs[i]; const Scenario& s = c.runs[i]; bool rec = c.meta.count("recovery" + std::to_string(i)); string f; for (auto& x : s.faults) f += string(f.empty() ? "" : ", ") + fault_names[x.kind] + "@" + std::to_string(x.at); if (rec) f = "restart after a crash";
    for (auto& x : s.files) if (x.first != on) { const string* y = r.file(x.first); if (!y || *y != x.second) return bad("damaged", f + ": the file " + x.first + " was changed", (int)i); }
    for (auto& x : r.files) if (x.first != on && first_file(s, x.first.c_str()).empty() && !x.second.empty()) return bad("damaged", f + ": the file " + x.first + " appeared", (int)i);
    const string& got = output_of(s, r);
    if (r.end == E_CRASHPOINT) { if (!on.empty() && s.faults.size() == 1 && got != first_file(b, on.c_str()) && want.compare(0, got.size(), got)) return bad("torn", f + ": what a crash leaves in the output file is not a beginning of the result", (int)i); continue; }
    if (r.end == E_FUEL || r.end == E_CPU) return bad("hang", f + ": no termination within the step budget", (int)i);
    if (r.end == E_DEADLOCK) return bad("deadlock", f + ": all threads blocked", (int)i);
    if (r.end == E_SIGNAL || r.end == E_OOM) { if (alloc) continue; return bad("crash", f + ": killed by signal " + std::to_string(r.code), (int)i); }
    if (r.end != E_EXIT) return bad("odd-end", f + ": " + r.brief(), (int)i);
    if (rec && r.code) return bad("no-recovery", f + ": exit status " + std::to_string(r.code), (int)i);
    if (r.code == 0 && got != want) return bad("silent", f + ": exit status 0 but the output differs from the fault free one", (int)i);
    if (r.code == 0 && on.empty() == false && r.out != rs[0].out) return bad("silent", f + ": exit status 0 but standard output differs from the fault free one", (int)i);
  }
  return v;
}

const Prop props[] = {
  {"C01", gen_c01, judge_c01, false, 15000, 400000, "Seeded polynomial systems from 18 families over prime fields of 8, 16 and 31 bits; each is solved 2-5 times with different options, thread counts, schedules, teams, clocks, draws and heap contents; every printed basis (or leading ideal, -g 1) is compared term by term with the reduced basis of an independent Buchberger implementation."},
  {"C02", gen_c02, judge_c02, false, 15000, 400000, "As C01, with -e k over prime fields and over the rationals; the printed basis is compared with an independently computed block-order basis (prime fields) or elimination ideal basis (rationals)."},
  {"C03", gen_c03, judge_c01, false, 15000, 400000, "Seeded systems with rational coefficients; every printed basis is compared with a basis computed by an independent rational Buchberger implementation; some inputs carry factors equal to the first primes the run will draw, so that unlucky primes really occur."},
  {"C04", gen_c04, judge_c04, false, 15000, 400000, "Seeded systems over the rationals, solved with -P 2 under different schedules, draws, clocks and options; each printed parametrization is checked against reference data: degree, eliminating polynomial, every generator vanishes on the parametrization."},
  {"C05", gen_c05, judge_c05, false, 15000, 400000, "Seeded zero-dimensional systems over the rationals; the printed boxes are compared with the real solutions isolated by the reference (count, exactly one solution per box, every solution in a box); a parametrization printed next to them is checked as in C04."},
  {"C06", gen_c06, judge_c06, false, 15000, 400000, "As C04 for prime fields below 1518500213."},
  {"C07", gen_c07, judge_c07, false, 15000, 400000, "Seeded empty, finite and positive-dimensional systems over the rationals and over prime fields; the printed classification is compared with the dimension of the reference basis."},
  {"C08", gen_c08, judge_c08, false, 15000, 400000, "Seeded bases and polynomials over prime fields; printed normal forms (-n k) are compared with the division remainders computed by the reference."},
  {"C09", gen_c09, judge_c09, false, 15000, 400000, "Seeded ideals I and polynomials f over prime fields with 32-bit arithmetic; the basis printed by -S must be a reduced basis of an ideal between I and its saturation (reference computed with an extra variable), equal to the saturation, and the same for all schedules and draws."},
  {"C10", gen_c10, judge_faults, true, 6000, 200000, "Seeded computations of all kinds are run without faults and then again, same seeds, with write errors, full disks, short writes, failing opens and closes, and crashes (power cut at a write, torn, or at any step) followed by a restart on what is left; exit status 0 must mean the fault free output, no other file may change, a crash leaves a beginning of the result, and the restart must produce the result."},
  {"C11", gen_c11, judge_faults, true, 6000, 200000, "As C10 with read errors, short reads and failing opens on the input: the run must either produce exactly the fault free output or exit with an error."},
  {"C12", gen_c12, judge_faults, true, 6000, 200000, "As C10 with failing allocations (one, or all from some point on): exit status 0 must mean the fault free output and no other file may change; the run may also stop with an error or a signal, but must stop."},
  {"C13", gen_c13, judge_c13, false, 8000, 200000, "Seeded histories of library calls (export_f4, export_nf, export_groebner_qq, msolve_julia, release of results) in one process with results kept alive; every result is compared with the reference, must stay unchanged by later calls, and inputs must not be modified."},
  {"C14", gen_c14, judge_c14, false, 1500, 60000, "Seeded larger systems (families katsura, cyclic, eco, noon, reimer, dense and sparse quadrics and cubics, overdetermined, positive dimensional) run several times under different tuning options, thread counts, team sizes, schedules, clocks and draws: bases must agree byte for byte between the runs and with the reference (over QQ modulo a 61 bit prime), parametrizations must verify and real boxes match them."},
  {"C15", gen_c15, judge_c15, false, 12000, 300000, "Seeded systems of all kinds are written in different ways (layout over lines, white space, order of terms and factors, names, signs, unreduced and large coefficients, split, cancelling and zero terms, repeated variables) and delivered with short reads; each printed result must be the one of the system the text denotes."},
};
const int nprops = sizeof props / sizeof props[0];
const Prop* find_prop(const string& id) { for (auto& p : props) if (id == p.id) return &p; return nullptr; }
