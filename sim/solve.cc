#include "solve.h"
#include <flint/nmod.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_mat.h>
#include <flint/fmpq_mat.h>
#include <flint/fmpq_poly.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/arb.h>
#include <flint/acb.h>
#include <flint/arb_fmpz_poly.h>
#include <flint/fmpz_mat.h>

Dim classify(const std::vector<Mon>& lms, int n) {
  for (auto& m : lms) if (m.deg == 0) return D_EMPTY;
  for (int i = 0; i < n; i++) { bool ok = false; for (auto& m : lms) if (m.e[i] == m.deg && m.deg > 0) ok = true; if (!ok) return D_POS; }
  return D_ZERO;
}
static void stair(const std::vector<Mon>& l, int n, size_t cap, int i, Mon m, std::vector<Mon>& B) {
  if (B.size() > cap) return;
  if (i == n) { for (auto& x : l) if (mdivides(x, m)) return; B.push_back(m); return; }
  for (int e = 0;; e++) {
    Mon k = m; k.e[i] = e; k.deg = m.deg + e;
    bool in = false; for (auto& x : l) if (mdivides(x, k)) in = true; if (in) break;
    stair(l, n, cap, i + 1, k, B); if (B.size() > cap) return;
  }
}
bool staircase(const std::vector<Mon>& l, int n, size_t cap, std::vector<Mon>& B) { B.clear(); stair(l, n, cap, 0, Mon(), B); return B.size() <= cap; }

static bool atomq(const std::string& a0, Q& q) { // "a / 2^k", "a/b", "a"
  std::string a; for (char c : a0) if (!isspace((unsigned char)c)) a += c;
  if (a.empty()) return false;
  size_t p = a.find("/2^"); 
  for (char c : a) if (!isdigit((unsigned char)c) && c != '-' && c != '/' && c != '^') return false;
  if (p != std::string::npos) { q = qstr(a.substr(0, p)); unsigned long k = strtoul(a.c_str() + p + 3, nullptr, 10); fmpq_div_2exp(q.v, q.v, k); return true; }
  if (a.find('^') != std::string::npos) return false;
  Q r; if (fmpq_set_str(r.v, a.c_str(), 10)) return false; if (fmpz_is_zero(fmpq_denref(r.v))) return false; fmpq_canonicalise(r.v); q = r; return true;
}
static bool upoly(const Node& n, std::vector<Q>& c, i64* deg = nullptr) { // [deg,[c0,..]]
  if (!n.list || n.kids.size() != 2 || n.kids[0].list || !n.kids[1].list) return false;
  i64 d = atoll(n.kids[0].atom.c_str()); c.clear();
  for (auto& k : n.kids[1].kids) { Q q; if (k.list || !atomq(k.atom, q)) return false; c.push_back(q); }
  if (deg) *deg = d;
  i64 need = d < 0 ? 1 : d + 1;      // the zero polynomial is printed as [-1,[0]]
  return (i64)c.size() == need;
}
static bool boxes(const Node& n, SolveOut& o) { // [1, [ [ [a,b],.. ], .. ]]
  if (!n.list || n.kids.size() != 2 || n.kids[0].atom != "1" || !n.kids[1].list) return false;
  for (auto& b : n.kids[1].kids) { Box x; if (!b.list) return false; for (auto& iv : b.kids) { if (!iv.list || iv.kids.size() != 2) return false; Q l, h; if (!atomq(iv.kids[0].atom, l) || !atomq(iv.kids[1].atom, h)) return false; x.c.push_back({l, h}); } o.boxes.push_back(x); }
  o.has_boxes = true; return true;
}
SolveOut parse_solve(const std::string& t, u64 ch) {
  SolveOut o; size_t p = 0; Node r;
  auto bad = [&](const char* w) { o.why = w; return o; };
  if (t.find_first_not_of(" \n\r\t") == std::string::npos) return bad("empty output");
  if (!parse_node(t, p, r) || !r.list || r.kids.empty()) return bad("malformed or truncated output");
  if (p >= t.size() || t[p] != ':') return bad("missing final ':'");
  p++; while (p < t.size() && isspace((unsigned char)t[p])) p++;
  if (p != t.size()) return bad("text after the end of the result");
  if (r.kids[0].atom == "-1") { if (r.kids.size() != 1) return bad("odd -1"); o.kind = -1; o.ok = true; return o; }
  if (r.kids[0].atom == "1") { if (r.kids.size() != 4) return bad("odd dim output"); o.posn = atoi(r.kids[1].atom.c_str()); o.kind = 1; o.ok = r.kids[2].atom == "-1" && r.kids[3].list && r.kids[3].kids.empty(); if (!o.ok) o.why = "odd dim output"; return o; }
  if (r.kids[0].atom != "0") return bad("unknown kind");
  o.kind = 0;
  for (size_t i = 1; i < r.kids.size(); i++) {
    Node& k = r.kids[i]; if (!k.list) return bad("odd entry");
    if (k.kids.size() == 6) {
      o.has_param = true; o.ch = strtoull(k.kids[0].atom.c_str(), nullptr, 10); o.nv = atoi(k.kids[1].atom.c_str()); o.deg = atoll(k.kids[2].atom.c_str());
      for (auto& v : k.kids[3].kids) { std::string a = v.atom; if (a.size() < 3 || a[0] != '\'') return bad("odd variable list"); o.vars.push_back(a.substr(1, a.size() - 2)); }
      for (auto& v : k.kids[4].kids) { Q q; if (!atomq(v.atom, q)) return bad("odd linear form"); o.form.push_back(q); }
      Node& m = k.kids[5]; if (!m.list || m.kids.size() != 2) return bad("odd parametrization");
      o.nparam = atoi(m.kids[0].atom.c_str());
      Node& l = m.kids[1]; if (!l.list || l.kids.size() != 3) return bad("odd parametrization list");
      if (!upoly(l.kids[0], o.w)) return bad("odd eliminating polynomial");
      if (!upoly(l.kids[1], o.d)) return bad("odd denominator");
      for (auto& e : l.kids[2].kids) {
        std::vector<Q> c; Q cf = qi(1);
        if (!e.list || e.kids.empty() || !upoly(e.kids[0], c)) return bad("odd coordinate");
        if (e.kids.size() == 2 && !atomq(e.kids[1].atom, cf)) return bad("odd coordinate denominator");
        o.v.push_back(c); o.cf.push_back(cf);
      }
    } else if (k.kids.size() == 2) { if (!boxes(k, o)) return bad("odd real roots"); }
    else return bad("odd entry size");
  }
  if (!o.has_param && !o.has_boxes) return bad("no result");
  o.ok = true; return o;
}

// ---------- distinct solution count: rank of the trace form, modulo a prime
template <class AA> static std::vector<Mon> lms_of(const std::vector<typename AA::Poly>& G) { std::vector<Mon> r; for (auto& g : G) r.push_back(g[0].m); return r; }
static int distinct_fp(const AF& A, const std::vector<FPoly>& G, const std::vector<Mon>& B) {
  int D = (int)B.size(); u64 p = A.f.p;
  auto idx = [&](const Mon& m) { for (int i = 0; i < D; i++) if (B[i] == m) return i; return -1; };
  std::vector<nmod_mat_struct> M(D);
  std::vector<nmod_mat_struct> X(A.o.n);
  for (int v = 0; v < A.o.n; v++) { nmod_mat_init(&X[v], D, D, p); for (int j = 0; j < D; j++) { Mon m = B[j]; m.e[v]++; m.deg++; FPoly q = {{m, 1}}; q = A.nf(q, G); for (auto& t : q) nmod_mat_entry(&X[v], idx(t.m), j) = t.c; } }
  std::vector<int> ord(D); for (int i = 0; i < D; i++) ord[i] = i; std::sort(ord.begin(), ord.end(), [&](int a, int b) { return B[a].deg < B[b].deg; });
  for (int i : ord) {
    nmod_mat_init(&M[i], D, D, p);
    if (B[i].deg == 0) nmod_mat_one(&M[i]);
    else { int v = 0; while (!B[i].e[v]) v++; Mon m = B[i]; m.e[v]--; m.deg--; nmod_mat_mul(&M[i], &X[v], &M[idx(m)]); }
  }
  std::vector<u64> tr(D); for (int i = 0; i < D; i++) tr[i] = nmod_mat_trace(&M[i]);
  nmod_mat_t T; nmod_mat_init(T, D, D, p);
  for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { u64 s = 0; int one = idx(Mon()); /* b_i*b_j = M_i * b_j = column j of M_i */ for (int k = 0; k < D; k++) s = A.f.add(s, A.f.mul(nmod_mat_entry(&M[i], k, j), tr[k])); (void)one; nmod_mat_entry(T, i, j) = s; }
  int rk = (int)nmod_mat_rank(T);
  nmod_mat_clear(T); for (auto& m : M) nmod_mat_clear(&m); for (auto& m : X) nmod_mat_clear(&m);
  return rk;
}
void ref_fp(const Sys& s, OpCap& cap, RefP& r, size_t maxD) {
  AF A; A.f.p = s.ch; A.o = Order{s.n(), 0}; A.cap = &cap;
  std::vector<FPoly> in; for (auto& p : s.polys) in.push_back(to_fp(p, A));
  r.gb = A.gb(in); auto l = lms_of<AF>(r.gb); r.dim = classify(l, s.n());
  if (r.dim == D_ZERO) { std::vector<Mon> B; if (!staircase(l, s.n(), maxD, B)) { cap.hit = true; throw CapHit(); } r.D = (int)B.size(); r.distinct = distinct_fp(A, r.gb, B); }
}
// characteristic polynomial by Newton's identities (fmpq_mat_charpoly of FLINT 3.0.1 was seen to return wrong results)
static void charpoly_newton(fmpq_poly_t cp, const fmpq_mat_t U, int D) {
  std::vector<Q> p(D + 1), c(D + 1); fmpq_mat_t P, T; fmpq_mat_init(P, D, D); fmpq_mat_init(T, D, D); fmpq_mat_set(P, U);
  for (int k = 1; k <= D; k++) { for (int i = 0; i < D; i++) fmpq_add(p[k].v, p[k].v, fmpq_mat_entry(P, i, i)); if (k < D) { fmpq_mat_mul(T, P, U); fmpq_mat_swap(P, T); } }
  c[D] = qi(1);
  for (int k = 1; k <= D; k++) { Q s; for (int i = 1; i <= k; i++) s = QC().add(s, QC().mul(c[D - k + i], p[i])); s = QC().mul(s, QC().inv(qi(-k))); c[D - k] = s; }
  fmpq_poly_zero(cp); for (int k = 0; k <= D; k++) fmpq_poly_set_coeff_fmpq(cp, k, c[k].v);
  fmpq_mat_clear(P); fmpq_mat_clear(T);
}
void ref_qq(const Sys& s, OpCap& cap, RefQ& r, bool need_real, size_t maxD) {
  AQ A; A.o = Order{s.n(), 0}; A.cap = &cap;
  r.gb = A.gb(s.polys); auto l = lms_of<AQ>(r.gb); r.dim = classify(l, s.n());
  if (r.dim != D_ZERO) return;
  std::vector<Mon> B; if (!staircase(l, s.n(), maxD, B)) { cap.hit = true; throw CapHit(); }
  r.D = (int)B.size(); int D = r.D, n = s.n();
  // distinct count modulo a large prime not dividing any denominator of the basis
  for (u64 p = next_prime_u64(2305843009213600000ULL);; p = next_prime_u64(p)) {
    bool bad = false; for (auto& g : r.gb) for (auto& t : g) if (fmpz_fdiv_ui(fmpq_denref(t.c.v), p) == 0) bad = true; if (bad) continue;
    AF F; F.f.p = p; F.o = A.o; std::vector<FPoly> G; for (auto& g : r.gb) G.push_back(to_fp(g, F));
    r.distinct = distinct_fp(F, G, B); break;
  }
  if (!need_real) return;
  auto idx = [&](const Mon& m) { for (int i = 0; i < D; i++) if (B[i] == m) return i; return -1; };
  std::vector<fmpq_mat_struct> X(n);
  for (int v = 0; v < n; v++) { fmpq_mat_init(&X[v], D, D); for (int j = 0; j < D; j++) { Mon m = B[j]; m.e[v]++; m.deg++; QPoly q = {{m, qi(1)}}; q = A.nf(q, r.gb); for (auto& t : q) fmpq_set(fmpq_mat_entry(&X[v], idx(t.m), j), t.c.v); } }
  fmpq_mat_t U, P, T; fmpq_mat_init(U, D, D); fmpq_mat_init(P, D, D); fmpq_mat_init(T, D, D);
  fmpq_poly_t cp; fmpq_poly_init(cp); fmpz_poly_t zp, sq; fmpz_poly_init(zp); fmpz_poly_init(sq);
  Rng g(12345); bool sep = false; std::vector<i64> uc(n);
  for (int tries = 0; tries < 60 && !sep; tries++) {
    fmpq_mat_zero(U);
    for (int v = 0; v < n; v++) { uc[v] = tries < 3 ? (v == (n - 1 - tries % n) ? 1 : 0) : g.range(-3 - tries, 3 + tries); Q c = qi(uc[v]); fmpq_mat_scalar_mul_fmpq(T, &X[v], c.v); fmpq_mat_add(U, U, T); }
    charpoly_newton(cp, U, D); fmpq_poly_get_numerator(zp, cp); fmpz_poly_primitive_part(zp, zp);
    fmpz_poly_t dd, gg; fmpz_poly_init(dd); fmpz_poly_init(gg); fmpz_poly_derivative(dd, zp); fmpz_poly_gcd(gg, zp, dd); fmpz_poly_div(sq, zp, gg); fmpz_poly_primitive_part(sq, sq); fmpz_poly_clear(dd); fmpz_poly_clear(gg);
    if (fmpz_poly_degree(sq) == r.distinct) sep = true;
  }
  if (!sep) throw CapHit();
  if (fmpz_sgn(fmpz_poly_lead(sq)) < 0) fmpz_poly_neg(sq, sq);
  int d = (int)fmpz_poly_degree(sq);
  if (getenv("MSIM_DBG")) { for (auto x : uc) fprintf(stderr, "%ld ", x); fmpz_poly_fprint_pretty(stderr, sq, "t"); fprintf(stderr, "\n"); fmpq_mat_print(U); for (auto& b : B) { for (int i = 0; i < n; i++) fprintf(stderr, "%d", b.e[i]); fprintf(stderr, "\n"); } }
  r.nreal = (int)fmpz_poly_num_real_roots(sq);
  // traces Tr(v * u^k), v in {1, x_1..x_n}
  std::vector<std::vector<Q>> tr(n + 1, std::vector<Q>(d));
  fmpq_mat_one(P);
  for (int k = 0; k < d; k++) {
    for (int v = -1; v < n; v++) {
      Q s0; Q tmp;
      if (v < 0) { for (int i = 0; i < D; i++) fmpq_add(s0.v, s0.v, fmpq_mat_entry(P, i, i)); }
      else for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) fmpq_addmul(s0.v, fmpq_mat_entry(&X[v], i, j), fmpq_mat_entry(P, j, i));
      tr[v + 1][k] = s0;
    }
    fmpq_mat_mul(T, P, U); fmpq_mat_swap(P, T);
  }
  // g_v(T) = sum_i Tr(v u^i) H_{d-i-1}(T), H_j Horner polynomials of the squarefree part
  std::vector<std::vector<Q>> gp(n + 1, std::vector<Q>(d));
  for (int v = 0; v <= n; v++) for (int i = 0; i < d; i++) { int j = d - i - 1; for (int k = 0; k <= j; k++) { Q c; fmpz_set(fmpq_numref(c.v), sq->coeffs + (d - j + k)); gp[v][k] = QC().add(gp[v][k], QC().mul(c, tr[v][i])); } }
  acb_ptr roots = _acb_vec_init(d); slong prec = 2000;
  arb_fmpz_poly_complex_roots(roots, sq, 0, prec);
  for (int i = 0; i < d; i++) if (arb_is_zero(acb_imagref(roots + i))) {
    std::vector<std::pair<Q, Q>> pt; arb_t num, den, x, c; arb_init(num); arb_init(den); arb_init(x); arb_init(c);
    auto eval = [&](const std::vector<Q>& q, arb_t o) { arb_zero(o); for (int k = (int)q.size() - 1; k >= 0; k--) { arb_mul(o, o, acb_realref(roots + i), prec); arb_set_fmpq(c, q[k].v, prec); arb_add(o, o, c, prec); } };
    eval(gp[0], den);
    for (int v = 1; v <= n; v++) {
      eval(gp[v], num); arb_div(x, num, den, prec);
      if (!arb_is_finite(x) || mag_cmp_2exp_si(arb_radref(x), -600) > 0) throw CapHit();
      arf_t a, b; arf_init(a); arf_init(b); arb_get_lbound_arf(a, x, prec); arb_get_ubound_arf(b, x, prec);
      Q lo, hi; arf_get_fmpq(lo.v, a); arf_get_fmpq(hi.v, b); arf_clear(a); arf_clear(b);
      pt.push_back({lo, hi});
    }
    r.real.push_back(pt); arb_clear(num); arb_clear(den); arb_clear(x); arb_clear(c);
  }
  if ((int)r.real.size() != r.nreal) throw CapHit();
  _acb_vec_clear(roots, d); fmpq_mat_clear(U); fmpq_mat_clear(P); fmpq_mat_clear(T); for (auto& m : X) fmpq_mat_clear(&m); fmpq_poly_clear(cp); fmpz_poly_clear(zp); fmpz_poly_clear(sq);
}

std::function<bool(u64, std::vector<FPoly>&)> g_gb_for_prime;
static u64 qmod(const Q& q, u64 p, bool& bad) { u64 d = fmpz_fdiv_ui(fmpq_denref(q.v), p); if (!d) { bad = true; return 0; } FpC f{p}; return f.mul(fmpz_fdiv_ui(fmpq_numref(q.v), p), f.inv(d)); }
// squarefree part of the characteristic polynomial of the multiplication by the printed separating element
static bool elim_ref(const Sys& s, const SolveOut& o, u64 p, const std::vector<QPoly>& gb, nmod_poly_t out) {
  AF A; A.f.p = p; A.o = Order{s.n(), 0}; std::vector<FPoly> G;
  if (g_gb_for_prime) { if (!g_gb_for_prime(p, G)) return false; } else for (auto& g : gb) { for (auto& t : g) if (fmpz_fdiv_ui(fmpq_denref(t.c.v), p) == 0) return false; G.push_back(to_fp(g, A)); }
  std::vector<Mon> l, B; for (auto& g : G) l.push_back(g[0].m); if (!staircase(l, s.n(), 4000, B)) return false; int D = (int)B.size();
  std::vector<u64> cf(s.n(), 0); int nv = (int)o.vars.size();
  if (nv == s.n()) { for (int i = 0; i < s.n(); i++) if (s.vars[i] == o.vars[nv - 1]) cf[i] = 1; }
  else { bool b = false; if ((int)o.form.size() != nv) return false; u64 c = qmod(o.form[nv - 1], p, b); if (b || !c) return false; c = A.f.sub(0, A.f.inv(c)); for (int j = 0; j + 1 < nv; j++) for (int i = 0; i < s.n(); i++) if (s.vars[i] == o.vars[j]) cf[i] = A.f.mul(c, qmod(o.form[j], p, b)); if (b) return false; }
  nmod_mat_t M; nmod_mat_init(M, D, D, p);
  for (int j = 0; j < D; j++) { FPoly q; for (int v = 0; v < s.n(); v++) if (cf[v]) { Mon m = B[j]; m.e[v]++; m.deg++; q.push_back({m, cf[v]}); } A.norm(q); q = A.nf(q, G); for (auto& t : q) for (int i = 0; i < D; i++) if (B[i] == t.m) nmod_mat_entry(M, i, j) = t.c; }
  nmod_poly_t c, d; nmod_poly_init(c, p); nmod_poly_init(d, p); nmod_mat_charpoly(c, M); nmod_poly_derivative(d, c); nmod_poly_gcd(d, d, c); nmod_poly_div(out, c, d); nmod_poly_make_monic(out, out);
  nmod_poly_clear(c); nmod_poly_clear(d); nmod_mat_clear(M); return true;
}
static std::string param_mod(const Sys& s, const SolveOut& o, u64 p, bool& retry, int D, int distinct, const std::vector<QPoly>& gb) {
  retry = false; bool bad = false;
  auto mk = [&](const std::vector<Q>& c, nmod_poly_t r) { nmod_poly_init(r, p); for (size_t i = 0; i < c.size(); i++) nmod_poly_set_coeff_ui(r, i, qmod(c[i], p, bad)); };
  nmod_poly_t w, d, g, dw; mk(o.w, w); mk(o.d, d); nmod_poly_init(g, p); nmod_poly_init(dw, p);
  std::string err;
  if (nmod_poly_degree(w) != (slong)o.w.size() - 1) { retry = s.ch == 0; err = "eliminating polynomial has a zero leading coefficient"; }
  if (err.empty()) { nmod_poly_derivative(dw, w); nmod_poly_gcd(g, w, dw); if (nmod_poly_degree(g) != 0) { retry = s.ch == 0; err = "eliminating polynomial is not squarefree"; } }
  if (err.empty()) { nmod_poly_gcd(g, w, d); if (nmod_poly_degree(g) != 0) { retry = s.ch == 0; err = "denominator shares a root with the eliminating polynomial"; } }
  bool lost = false;
  if (err.empty()) {
    nmod_poly_t e; nmod_poly_init(e, p); nmod_poly_make_monic(g, w);
    if (!elim_ref(s, o, p, gb, e)) { retry = s.ch == 0; err = "cannot evaluate the separating element"; }
    else if (!nmod_poly_equal(e, g)) err = "eliminating polynomial (degree " + std::to_string(nmod_poly_degree(w)) + ") is not that of the printed separating element, which takes " + std::to_string(nmod_poly_degree(e)) + " values";
    nmod_poly_clear(e);
  }
  if (err.empty() && nmod_poly_degree(w) != distinct) { if (D != distinct) lost = true; else err = "eliminating polynomial has degree " + std::to_string(nmod_poly_degree(w)) + " but the system has " + std::to_string(distinct) + " distinct solutions"; }
  if (err.empty()) {
    nmod_poly_t di; nmod_poly_init(di, p); if (!nmod_poly_invmod(di, d, w)) { if (nmod_poly_degree(w) == 0) nmod_poly_zero(di); else err = "denominator not invertible"; }
    int nv = (int)o.vars.size(); std::vector<nmod_poly_struct> x(nv);
    for (int i = 0; i < nv; i++) nmod_poly_init(&x[i], p);
    for (int i = 0; i < nv - 1 && err.empty(); i++) {
      nmod_poly_t v; mk(o.v[i], v); bool b2 = false; u64 c = qmod(o.cf[i], p, b2); if (b2 || !c) { if (s.ch == 0 && !fmpq_is_zero(o.cf[i].v)) retry = true; err = "zero coordinate denominator"; }
      else { nmod_poly_mulmod(v, v, di, w); nmod_poly_scalar_mul_nmod(v, v, FpC{p}.inv(c)); nmod_poly_neg(v, v); nmod_poly_rem(&x[i], v, w); }
      nmod_poly_clear(v);
    }
    nmod_poly_t t; nmod_poly_init(t, p); nmod_poly_set_coeff_ui(t, 1, 1); nmod_poly_rem(&x[nv - 1], t, w);
    std::vector<int> map(s.n(), -1); for (int i = 0; i < s.n(); i++) for (int j = 0; j < nv; j++) if (o.vars[j] == s.vars[i]) map[i] = j;
    nmod_poly_t a, m; nmod_poly_init(a, p); nmod_poly_init(m, p);
    for (size_t k = 0; k < s.polys.size() && err.empty(); k++) {
      nmod_poly_zero(a);
      for (auto& tm : s.polys[k]) { bool b2 = false; u64 c = qmod(tm.c, p, b2); if (b2) { retry = true; err = "prime"; break; } nmod_poly_zero(m); nmod_poly_set_coeff_ui(m, 0, c); nmod_poly_rem(m, m, w); for (int i = 0; i < s.n(); i++) for (int e = 0; e < tm.m.e[i]; e++) nmod_poly_mulmod(m, m, &x[map[i]], w); nmod_poly_add(a, a, m); }
      if (err.empty() && !nmod_poly_is_zero(a)) err = "input polynomial #" + std::to_string(k + 1) + " does not vanish on the parametrization";
    }
    // the linear form, when a new variable was added
    if (err.empty() && nv == s.n() + 1) {
      if ((int)o.form.size() != nv) err = "linear form has wrong length";
      else { nmod_poly_zero(a); for (int i = 0; i < nv; i++) { bool b2 = false; u64 c = qmod(o.form[i], p, b2); if (b2) { retry = s.ch == 0; err = "prime"; } nmod_poly_scalar_mul_nmod(m, &x[i], c); nmod_poly_add(a, a, m); } if (err.empty() && !nmod_poly_is_zero(a)) err = "the printed linear form does not vanish on the parametrization"; }
    }
    nmod_poly_clear(a); nmod_poly_clear(m); nmod_poly_clear(t); nmod_poly_clear(di); for (auto& q : x) nmod_poly_clear(&q);
  }
  if (bad) { retry = s.ch == 0; err = "unreducible coefficient"; }
  if (err.empty() && lost) err = "NONSEP non radical ideal: the printed separating element takes only " + std::to_string(nmod_poly_degree(w)) + " values on the " + std::to_string(distinct) + " distinct solutions; the others are lost";
  nmod_poly_clear(w); nmod_poly_clear(d); nmod_poly_clear(g); nmod_poly_clear(dw);
  return err;
}
std::string check_param(const Sys& s, const SolveOut& o, Dim dim, int D, int distinct, const std::vector<QPoly>& gb) {
  if (dim == D_EMPTY) return o.kind == -1 ? "" : "system has no solution but the output is of kind " + std::to_string(o.kind);
  if (dim == D_POS) { if (o.kind != 1) return "system has positive dimension but the output is of kind " + std::to_string(o.kind); return ""; }
  if (o.kind != 0) return "system has finitely many (" + std::to_string(D) + ") solutions but the output is of kind " + std::to_string(o.kind);
  if (!o.has_param) return "";
  if (o.ch != s.ch) return "wrong characteristic printed";
  int nv = (int)o.vars.size();
  if (o.nv != nv) return "number of variables does not match the variable list";
  if (nv != s.n() && nv != s.n() + 1) return "variable list has wrong length";
  for (auto& v : s.vars) { int c = 0; for (auto& u : o.vars) c += u == v; if (c != 1) return "variable " + v + " missing or repeated in the parametrization"; }
  if (o.deg != D) return "degree printed " + std::to_string(o.deg) + ", ideal has degree " + std::to_string(D);
  if ((int)o.v.size() != nv - 1) return "wrong number of coordinates";
  if (o.w.empty()) return "no eliminating polynomial";
  if (s.ch) { bool r; return param_mod(s, o, s.ch, r, D, distinct, gb); }
  u64 p = 2305843009213500000ULL; std::string e;
  for (int good = 0, tries = 0; good < 2 && tries < 12; tries++) { p = next_prime_u64(p + 1000003); bool retry; e = param_mod(s, o, p, retry, D, distinct, gb); if (e.empty()) good++; else if (!retry) return e; if (good < 2 && tries == 11) return e.empty() ? "parametrization not verifiable" : e; }
  return "";
}
std::string check_boxes(const Sys& s, const SolveOut& o, const RefQ& r, int prec) {
  if (r.dim == D_EMPTY) return o.kind == -1 ? "" : "system has no solution but the output is of kind " + std::to_string(o.kind);
  if (r.dim == D_POS) return o.kind == 1 ? "" : "system has positive dimension but the output is of kind " + std::to_string(o.kind);
  if (o.kind != 0) return "system has finitely many solutions but the output is of kind " + std::to_string(o.kind);
  if (!o.has_boxes) return "no real solutions printed";
  bool lost = r.D != r.distinct && (int)o.boxes.size() < r.nreal;
  if (!lost && (int)o.boxes.size() != r.nreal) return "printed " + std::to_string(o.boxes.size()) + " real boxes, the system has " + std::to_string(r.nreal) + " real solutions";
  // with a printed parametrization the boxes follow its variable list, otherwise the input's
  std::vector<int> at(s.n()); for (int i = 0; i < s.n(); i++) at[i] = i;
  if (o.has_param) for (size_t k = 0, m = 0; k < o.vars.size(); k++) { int i = -1; for (int q = 0; q < s.n(); q++) if (s.vars[q] == o.vars[k]) i = q; if (i >= 0) at[i] = (int)m++; }
  // two solutions closer than the requested precision in every coordinate may share boxes
  auto close = [&](size_t a, size_t b) { for (int i = 0; i < s.n(); i++) { Q d = QC().sub(r.real[a][i].first, r.real[b][i].first); fmpq_abs(d.v, d.v); Q m = r.real[a][i].first; fmpq_abs(m.v, m.v); if (fmpq_cmp_si(m.v, 1) < 0) m = qi(1); fmpq_mul_2exp(d.v, d.v, prec > 4 ? prec - 4 : 0); if (prec < 4) { Q t = qi(16); m = QC().mul(m, t); } if (fmpq_cmp(d.v, m.v) > 0) return false; } return true; };
  std::vector<int> hit(r.real.size(), 0);
  // a box wider than the requested precision (relative to its size) is coarse
  auto wide = [&](size_t b) { for (auto& c : o.boxes[b].c) { Q w = QC().sub(c.second, c.first), m = c.first, m2 = c.second; fmpq_abs(m.v, m.v); fmpq_abs(m2.v, m2.v); if (fmpq_cmp(m.v, m2.v) < 0) m = m2; if (fmpq_cmp_si(m.v, 1) < 0) m = qi(1); fmpq_mul_2exp(w.v, w.v, prec > 2 ? prec - 2 : 0); if (fmpq_cmp(w.v, m.v) > 0) return true; } return false; };
  std::vector<char> coarse_hit(r.real.size(), 0); std::string coarse;
  for (size_t b = 0; b < o.boxes.size(); b++) {
    if ((int)o.boxes[b].c.size() != s.n()) return "box with " + std::to_string(o.boxes[b].c.size()) + " coordinates";
    for (auto& c : o.boxes[b].c) if (fmpq_cmp(c.first.v, c.second.v) > 0) return "box with lower bound above upper bound";
    std::vector<size_t> in;
    for (size_t k = 0; k < r.real.size(); k++) { bool ok = true; for (int i = 0; i < s.n() && ok; i++) if (fmpq_cmp(r.real[k][i].second.v, o.boxes[b].c[at[i]].first.v) < 0 || fmpq_cmp(r.real[k][i].first.v, o.boxes[b].c[at[i]].second.v) > 0) ok = false; if (ok) { in.push_back(k); hit[k]++; } }
    if (in.empty()) return "box #" + std::to_string(b + 1) + " contains no real solution";
    if (in.size() > 1) { bool far = false; for (size_t x : in) if (!close(in[0], x)) far = true; if (far) { if (!wide(b)) return "box #" + std::to_string(b + 1) + " contains " + std::to_string(in.size()) + " real solutions"; coarse = "COARSE box #" + std::to_string(b + 1) + " is wider than the requested precision and contains " + std::to_string(in.size()) + " real solutions"; for (size_t x : in) coarse_hit[x] = 1; } }
  }
  for (size_t k = 0; k < hit.size(); k++) { if (lost) continue; if (!hit[k]) return "a real solution lies in no box"; if (hit[k] > 1 && !coarse_hit[k]) { bool near = false; for (size_t q = 0; q < hit.size(); q++) if (q != k && close(k, q)) near = true; if (!near) return "a real solution lies in " + std::to_string(hit[k]) + " boxes"; } }
  if (lost) return "NONSEP non radical ideal: " + std::to_string(o.boxes.size()) + " of " + std::to_string(r.nreal) + " real solutions printed";
  return coarse;
}

// D and the number of distinct solutions from a basis over GF(p)
bool facts_fp(const Sys& s, u64 p, const std::vector<FPoly>& gb, size_t maxD, Dim& dim, int& D, int& distinct) {
  AF A; A.f.p = p; A.o = Order{s.n(), 0}; auto l = lms_of<AF>(gb); dim = classify(l, s.n()); D = distinct = 0; if (dim != D_ZERO) return true;
  std::vector<Mon> B; if (!staircase(l, s.n(), maxD, B)) return false; D = (int)B.size(); distinct = distinct_fp(A, gb, B); return true;
}
// real solutions computed from a parametrization that has been verified
bool real_from_param(const Sys& s, const SolveOut& o, RefQ& r) {
  int nv = (int)o.vars.size(), d = (int)o.w.size() - 1; r.real.clear(); if (d < 1) return false;
  fmpz_poly_t w; fmpz_poly_init(w); { fmpq_poly_t q; fmpq_poly_init(q); for (int i = 0; i <= d; i++) fmpq_poly_set_coeff_fmpq(q, i, o.w[i].v); fmpq_poly_get_numerator(w, q); fmpq_poly_clear(q); }
  fmpz_poly_primitive_part(w, w); if (fmpz_sgn(fmpz_poly_lead(w)) < 0) fmpz_poly_neg(w, w);
  r.nreal = (int)fmpz_poly_num_real_roots(w); slong prec = 2000; acb_ptr roots = _acb_vec_init(d); arb_fmpz_poly_complex_roots(roots, w, 0, prec); bool ok = true;
  for (int i = 0; i < d && ok; i++) if (arb_is_zero(acb_imagref(roots + i))) {
    std::vector<std::pair<Q, Q>> pt(s.n()); arb_t num, den, x, c; arb_init(num); arb_init(den); arb_init(x); arb_init(c);
    auto eval = [&](const std::vector<Q>& q, arb_t o2) { arb_zero(o2); for (int k = (int)q.size() - 1; k >= 0; k--) { arb_mul(o2, o2, acb_realref(roots + i), prec); arb_set_fmpq(c, q[k].v, prec); arb_add(o2, o2, c, prec); } };
    eval(o.d, den);
    for (int v = 0; v < nv; v++) {
      int at = -1; for (int k = 0; k < s.n(); k++) if (s.vars[k] == o.vars[v]) at = k; if (at < 0) continue;
      if (v == nv - 1) arb_set(x, acb_realref(roots + i)); else { eval(o.v[v], num); arb_set_fmpq(c, o.cf[v].v, prec); arb_mul(c, c, den, prec); arb_div(x, num, c, prec); arb_neg(x, x); }
      if (!arb_is_finite(x) || mag_cmp_2exp_si(arb_radref(x), -500) > 0) { ok = false; break; }
      arf_t a, b; arf_init(a); arf_init(b); arb_get_lbound_arf(a, x, prec); arb_get_ubound_arf(b, x, prec); arf_get_fmpq(pt[at].first.v, a); arf_get_fmpq(pt[at].second.v, b); arf_clear(a); arf_clear(b);
    }
    r.real.push_back(pt); arb_clear(num); arb_clear(den); arb_clear(x); arb_clear(c);
  }
  _acb_vec_clear(roots, d); fmpz_poly_clear(w);
  return ok && (int)r.real.size() == r.nreal;
}
