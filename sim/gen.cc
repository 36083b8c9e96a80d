#include "gen.h"
#include <functional>
#include <flint/fmpq_poly.h>
#include <flint/fmpz_poly.h>
static Q rcoef(Rng& r, int cb, u64 ch, bool rational) {
  i64 v; 
  do {
    switch (cb) {
      case 0: v = r.chance(1, 2) ? 1 : -1; break;
      case 1: v = r.range(-9, 9); break;
      case 2: v = r.range(-1000, 1000); break;
      case 3: v = r.range(-1000000007LL, 1000000007LL); break;
      default: v = r.range(-3000000000000000000LL, 3000000000000000000LL); break;
    }
  } while (v == 0);
  if (ch && ch < 2000000000ULL && cb >= 4) v %= (i64)ch;
  if (ch && v % (i64)ch == 0) v = 1;
  if (!ch && cb == 4 && r.chance(1, 4)) { Q a = qi(v), b = qi(r.range(1, 3000000000000000000LL)); a = QC().mul(a, b); return a; }
  if (!ch && rational && r.chance(1, 5)) { Q a = qi(v), b = qi(r.range(1, 12)); return QC().mul(a, QC().inv(b)); }
  return qi(v);
}
static Mon rmon(Rng& r, int n, int deg) { Mon m; int d = (int)r.range(0, deg); if (r.chance(1, 3)) d = deg; for (int i = 0; i < d; i++) m.e[r.below(n)]++; m.deg = d; return m; }
static AQ alg(int n) { AQ A; A.o = Order{n, 0}; return A; }
QPoly rnd_poly(Rng& r, int n, int deg, int nt, int cb, u64 ch, bool rational) {
  QPoly p; for (int i = 0; i < nt; i++) p.push_back({rmon(r, n, deg), rcoef(r, cb, ch, rational)});
  alg(n).norm(p); return p;
}
static QPoly mulp(const AQ& A, const QPoly& a, const QPoly& b) { QPoly r; for (auto& x : a) for (auto& y : b) r.push_back({mmul(x.m, y.m), QC().mul(x.c, y.c)}); A.norm(r); return r; }
static QPoly addp(const AQ& A, const QPoly& a, const QPoly& b) { QPoly r = a; r.insert(r.end(), b.begin(), b.end()); A.norm(r); return r; }
static QPoly term(int n, std::vector<int> e, i64 c) { Mon m; for (size_t i = 0; i < e.size(); i++) { m.e[i] = e[i]; m.deg += e[i]; } QPoly p; if (c) p.push_back({m, qi(c)}); return p; }
static QPoly var(int n, int i, int e = 1) { Mon m; m.e[i] = e; m.deg = e; QPoly p; p.push_back({m, qi(1)}); return p; }
static QPoly cst(i64 c) { QPoly p; if (c) p.push_back({Mon(), qi(c)}); return p; }
static QPoly scale(const QPoly& p, const Q& c) { QPoly r = p; for (auto& t : r) t.c = QC().mul(t.c, c); return r; }
u64 gen_prime(Rng& r, int c) {
  if (c == 8) { static const std::vector<u64> small = {2, 3, 5, 7, 11, 13, 127, 131, 241, 251}; if (r.chance(1, 2)) return r.pick(small); u64 p; do p = next_prime_u64(r.range(2, 250)); while (p >= 256); return p; }
  if (c == 16) { if (r.chance(1, 4)) return r.pick(std::vector<u64>{257, 32749, 32771, 65521}); u64 p; do p = next_prime_u64(r.range(256, 65520)); while (p >= 65536); return p; }
  if (c == 30) { if (r.chance(1, 4)) return r.pick(std::vector<u64>{1073741827ULL, 2147483647ULL, 2147483629ULL}); u64 p; do p = next_prime_u64(r.range(1 << 30, 2147483640LL)); while (p >= (1ULL << 31)); return p; }
  if (c == 29) { if (r.chance(1, 5)) { u64 q = 1518500212; while (next_prime_u64(q - 1) != q) q--; return q; } u64 p; do p = next_prime_u64(r.range(r.chance(1, 2) ? 1 << 28 : 1 << 30, 1518500200LL)); while (p >= 1518500213ULL); return p; }
  if (r.chance(1, 4)) return r.pick(std::vector<u64>{65537ULL, 131071ULL, 1000003ULL, 16777259ULL});
  u64 p; do p = next_prime_u64(r.range(65536, 2147483640LL)); while (p >= (1ULL << 31)); return p;
}
// A univariate polynomial of about the given degree whose real roots come in clusters:
// dyadic and other rational numbers close to each other, both signs, zero, powers of two,
// plus quadratic factors with close real roots or with complex roots close to the real line.
static Sys clustered(Rng& r, i64 deg) {
  Sys s; s.ch = 0; s.vars = {"x"}; AQ A = alg(1); QPoly f = cst(1); int d = 0; i64 den = 1LL << r.range(0, 7), num = r.range(-3 * den, 3 * den); int neg = r.chance(1, 2);
  if (r.chance(1, 6)) { f = var(1, 0); d++; }
  while (d < deg) {
    int k = (int)r.below(8); i64 a, b;
    if (k == 0) { den = 1LL << r.range(0, 9); num = r.range(-3 * den, 3 * den); if (neg) num = -std::abs(num); }
    if (k <= 3) { a = num + r.range(-3, 3); b = den; }
    else if (k == 4) { b = r.range(1, 40); a = num * b / den + r.range(-1, 1); }
    else if (k == 5) { b = 1; a = (r.chance(1, 2) ? 1 : -1) * (1LL << r.range(0, 6)); }
    else if (k == 6 && d + 2 <= deg) { i64 c = r.range(-1, 2), m = r.pick(std::vector<i64>{2, 3, 100, 4097}); // ((den x - num)^2 m - c)
      QPoly l = addp(A, scale(var(1, 0), qi(den)), cst(-num)); QPoly q = addp(A, scale(mulp(A, l, l), qi(m)), cst(c == 0 ? 1 : -c)); f = mulp(A, f, q); d += 2; continue; }
    else { b = r.range(1, 300); a = r.range(-900, 900); }
    QPoly l = addp(A, scale(var(1, 0), qi(b)), cst(-a)); f = mulp(A, f, l); d++;
  }
  s.polys.push_back(f); return s;
}
// A univariate polynomial of large degree with few, known, real roots: ref holds the factor
// carrying the real roots, full the whole polynomial.
void bigdeg(Rng& r, std::string& full, std::string& ref) {
  Sys s = clustered(r, r.range(1, 6)); AQ A = alg(1); QPoly f = s.polys[0]; fmpq_poly_t a, b; fmpq_poly_init(a); fmpq_poly_init(b);
  for (auto& t : f) { fmpq_poly_set_coeff_fmpq(a, t.m.e[0], t.c.v); }
  { fmpq_poly_t d; fmpq_poly_init(d); fmpq_poly_derivative(d, a); fmpq_poly_gcd(d, a, d); fmpq_poly_div(a, a, d); fmpq_poly_canonicalise(a); fmpq_poly_clear(d); } // square free
  auto text = [&](fmpq_poly_t p) { std::string o; bool first = true; for (i64 k = fmpq_poly_degree(p); k >= 0; k--) { fmpz_t c; fmpz_init(c); fmpz_set(c, fmpq_poly_numref(p) + k); if (!fmpz_is_zero(c)) { char* q = fmpz_get_str(nullptr, 10, c); std::string t = q; flint_free(q); if (t[0] != '-' && !first) o += "+"; o += t + (k ? "*x^" + std::to_string(k) : ""); first = false; } fmpz_clear(c); } return "x\n0\n" + o + "\n"; };
  ref = text(a); i64 m = 2 * r.range(r.chance(1, 4) ? 100 : 128, 145), h = r.range(1, 4); if (r.chance(1, 3)) m = 2 * r.range(254, 262);
  fmpq_poly_set_coeff_si(b, m, r.range(1, 3)); for (i64 i = 0; i < h; i++) fmpq_poly_set_coeff_si(b, 2 * r.range(1, m / 2 - 1), r.range(1, 1000)); fmpq_poly_set_coeff_si(b, 0, r.range(1, 900)); // positive on the real line
  fmpq_poly_mul(a, a, b); 
  { fmpq_poly_t d; fmpq_poly_init(d); fmpq_poly_derivative(d, a); fmpq_poly_gcd(d, a, d); if (fmpq_poly_degree(d) > 0) full = ref; else full = text(a); fmpq_poly_clear(d); }
  fmpq_poly_clear(a); fmpq_poly_clear(b);
}
Sys gen_sys(Rng& r, const GenOpt& g, std::string* fam) {
  Sys s; s.ch = g.ch; int n = (int)r.range(g.minv, g.maxv);
  int cb = (int)r.below(g.bigcoef ? 5 : 3); if (g.ch && cb > 3) cb = 3; bool rat = g.rational;
  if (cb >= 3 && !g.ch && r.chance(1, 2)) cb = 1;
  static const char* fn[] = {"dense", "sparse", "triangular", "product", "katsura", "cyclic", "posdim", "inconsistent", "linear", "overdet", "nonradical", "grid", "homog", "univar", "eco", "redundant", "thin", "binomial", "clustered"};
  const int NF = 19; int f = g.family >= 0 ? g.family : (int)r.below(NF);
  if (g.zerodim && g.family < 0) { static const std::vector<int> zd = {0, 0, 1, 2, 3, 4, 5, 9, 10, 11, 13, 14, 15, 2, 10, 8, 17, 18, 18, 18}; f = r.pick(zd); }
  if (f == 13) n = 1; if (f == 18 && n > 2) n = r.chance(3, 4) ? 1 : 2;
  AQ A; int sz = g.size;
  auto dense = [&](int d) { int nt = 1; for (int i = 0; i < d; i++) nt = nt * (n + i + 1) / (i + 1); return rnd_poly(r, n, d, nt + 2, cb, g.ch, rat); };
  auto sparse = [&](int d) { return rnd_poly(r, n, d, (int)r.range(2, 5), cb, g.ch, rat); };
  std::vector<QPoly> P;
  auto refit = [&](int m) { n = m; };
  switch (f) {
    case 0: { if (n > 3) refit(sz > 2 ? 4 : 3); A = alg(n); for (int i = 0; i < n; i++) P.push_back(dense(n >= 4 ? (int)r.range(1, 2) : (int)r.range(1, sz > 1 && n <= 2 ? 4 : 2 + (sz > 2 && r.chance(1, 4))))); break; }
    case 1: { A = alg(n); int m = n + (int)r.range(-1, 1); if (g.zerodim && m < n) m = n; if (m < 1) m = 1; for (int i = 0; i < m; i++) P.push_back(sparse((int)r.range(1, 4))); break; }
    case 2: { A = alg(n); for (int i = 0; i < n; i++) { int d = (int)r.range(1, n > 3 ? 2 : 3); QPoly p = var(n, i, d); int k = (int)r.range(0, 3); for (int t = 0; t < k; t++) { Mon m; int lo = i; int dd = (int)r.range(0, d); for (int e = 0; e < dd; e++) { int v = (int)r.range(lo, n - 1); if (v == i && m.e[i] + 1 >= d) continue; m.e[v]++; m.deg++; } if (m == p[0].m) continue; QPoly q; q.push_back({m, rcoef(r, cb, g.ch, rat)}); p = addp(A, p, q); } P.push_back(p); } break; }
    case 3: { if (n > 3) refit(3); A = alg(n); for (int i = 0; i < n; i++) { QPoly a = rnd_poly(r, n, 1, 3, std::min(cb, 2), g.ch, rat), b = rnd_poly(r, n, (int)r.range(1, 2), 3, std::min(cb, 2), g.ch, rat); P.push_back(mulp(A, a, b)); } break; }
    case 4: { int k = (int)r.range(2, sz > 2 ? 5 : 3); refit(k + 1 > g.maxv ? g.maxv : k + 1); if (n < 2) refit(2); A = alg(n); int N = n - 1; // katsura
      auto u = [&](int l) { l = l < 0 ? -l : l; return l > N ? QPoly() : var(n, l); };
      for (int m = 0; m < N; m++) { QPoly p; for (int l = -N; l <= N; l++) p = addp(A, p, mulp(A, u(l), u(m - l))); p = addp(A, p, scale(u(m), qi(-1))); P.push_back(p); }
      QPoly p = cst(-1); for (int l = -N; l <= N; l++) p = addp(A, p, u(l)); P.push_back(p); break; }
    case 5: { refit(r.chance(1, 3) && sz > 2 && g.maxv >= 5 ? 5 : (int)r.range(2, 3)); if (n > g.maxv) refit(g.maxv); if (n < 2) refit(2); A = alg(n); // cyclic (n=4 has positive dimension)
      for (int d = 1; d < n; d++) { QPoly p; for (int i = 0; i < n; i++) { QPoly q = cst(1); for (int j = 0; j < d; j++) q = mulp(A, q, var(n, (i + j) % n)); p = addp(A, p, q); } P.push_back(p); }
      QPoly q = cst(1); for (int j = 0; j < n; j++) q = mulp(A, q, var(n, j)); P.push_back(addp(A, q, cst(-1))); break; }
    case 6: { A = alg(n); int m = std::max(1, n - 1); if (r.chance(1, 2)) { for (int i = 0; i < m; i++) P.push_back(sparse((int)r.range(1, 3))); } else { QPoly h = sparse(1); for (int i = 0; i < n; i++) P.push_back(mulp(A, h, sparse((int)r.range(1, 2)))); } break; }
    case 7: { A = alg(n); for (int i = 0; i < n; i++) P.push_back(sparse((int)r.range(1, 3))); QPoly q = P[r.below(P.size())]; P.push_back(addp(A, mulp(A, q, sparse(1)), cst(1 + (i64)r.below(5)))); break; }
    case 8: { A = alg(n); int m = n + (int)r.range(-1, 1); if (g.zerodim) m = n; if (m < 1) m = 1; for (int i = 0; i < m; i++) P.push_back(dense(1)); break; }
    case 9: { A = alg(n); for (int i = 0; i < n + 2; i++) { QPoly p = sparse((int)r.range(1, 3)); // vanish at a common point
        std::vector<i64> pt(n); Rng q(r.s ^ 77); for (auto& x : pt) x = 0; Rng c(g.ch + n); for (auto& x : pt) x = c.range(-3, 3);
        Q val; for (auto& t : p) { Q v = t.c; for (int k = 0; k < n; k++) for (int e = 0; e < t.m.e[k]; e++) v = QC().mul(v, qi(pt[k])); val = QC().add(val, v); }
        QPoly cc; cc.push_back({Mon(), QC().sub(Q(), val)}); if (!fmpq_is_zero(val.v)) p = addp(A, p, cc); P.push_back(p); } break; }
    case 10: { if (n > 3) refit(3); A = alg(n); for (int i = 0; i < n; i++) { QPoly a = addp(A, var(n, i), cst(r.range(-3, 3))); QPoly b = r.chance(1, 2) ? a : addp(A, var(n, i), rnd_poly(r, n, 1, 2, 1, g.ch, false)); P.push_back(r.chance(1, 3) ? a : mulp(A, a, b)); } if (r.chance(1, 3)) { P[0] = mulp(A, P[0], addp(A, var(n, 0), cst(5))); } break; }
    case 11: { A = alg(n); for (int i = 0; i < n; i++) { QPoly p = cst(1); int d = (int)r.range(1, n > 2 ? 2 : 3); for (int k = 0; k < d; k++) p = mulp(A, p, addp(A, var(n, i), cst(r.range(-6, 6)))); P.push_back(p); } break; }
    case 12: { A = alg(n); int m = (int)r.range(1, n + 1); for (int i = 0; i < m; i++) { int d = (int)r.range(1, 3); QPoly p; for (int t = 0; t < (int)r.range(2, 6); t++) { Mon mo; for (int e = 0; e < d; e++) mo.e[r.below(n)]++; mo.deg = d; p.push_back({mo, rcoef(r, cb, g.ch, rat)}); } A.norm(p); P.push_back(p); } break; }
    case 13: { A = alg(1); int d = (int)r.range(1, 6); P.push_back(rnd_poly(r, 1, d, d + 3, cb, g.ch, rat)); if (r.chance(1, 4)) P.push_back(mulp(A, P[0], rnd_poly(r, 1, 1, 2, 1, g.ch, rat))); break; }
    case 14: { int k = (int)r.range(3, sz > 2 ? 5 : 4); refit(std::min(k, g.maxv)); if (n < 2) refit(2); A = alg(n); // eco
      int m = n - 1; for (int k2 = 1; k2 <= m; k2++) { QPoly p = var(n, k2 - 1); for (int i = 1; i + k2 <= m; i++) p = addp(A, p, mulp(A, var(n, i - 1), var(n, i + k2 - 1))); p = mulp(A, p, var(n, n - 1)); P.push_back(addp(A, p, cst(-k2))); }
      QPoly p = cst(1); for (int i = 0; i < m; i++) p = addp(A, p, var(n, i)); P.push_back(p); break; }
    case 15: { A = alg(n); for (int i = 0; i < n; i++) P.push_back(n > 3 ? sparse(2) : dense((int)r.range(1, 2))); P.push_back(scale(P[0], qi(r.range(2, 7)))); P.push_back(P[r.below(n)]); P.push_back(addp(A, P[0], mulp(A, P[n - 1], rnd_poly(r, n, 1, 2, 1, g.ch, false)))); break; }
    case 16: { A = alg(n); int m = (int)r.range(1, 2); for (int i = 0; i < m; i++) P.push_back(sparse((int)r.range(2, 6))); break; }
    case 18: { A = alg(n); Sys u = clustered(r, r.range(3, n > 1 ? 6 : 9)); for (auto& p : u.polys) { QPoly q = p; A.norm(q); P.push_back(q); } // clusters of rational and algebraic real roots
      if (n > 1) { QPoly q = rnd_poly(r, n, 2, 3, 1, g.ch, false); QPoly q2; for (auto& t : q) if (!t.m.e[1]) q2.push_back(t); P.push_back(addp(A, scale(var(n, 1, (int)r.range(1, 2)), qi(r.pick(std::vector<i64>{1, 1, 2, 8, 3}))), q2)); } break; }
    default: { A = alg(n); int m = n + (int)r.range(0, 1); for (int i = 0; i < m; i++) { int d = (int)r.range(1, 4); QPoly p; if (i < n) p = var(n, i, d); else p.push_back({rmon(r, n, d), qi(1)}); QPoly q; q.push_back({rmon(r, n, std::max(0, d - 1)), rcoef(r, std::min(cb, 2), g.ch, rat)}); P.push_back(addp(A, p, q)); } break; }
  }
  s.polys.clear();
  for (auto& p : P) {
    QPoly q = p;
    if (g.ch) { AF F; F.f.p = g.ch; F.o = A.o; FPoly fp = to_fp(q, F); q.clear(); for (auto& t : fp) { i64 c = (i64)t.c; if (r.chance(1, 8)) c -= (i64)g.ch; q.push_back({t.m, qi(c)}); } }
    if (!q.empty()) s.polys.push_back(q);
  }
  if (s.polys.empty()) s.polys.push_back(var(n, 0));
  for (size_t i = s.polys.size(); i > 1; i--) std::swap(s.polys[i - 1], s.polys[r.below(i)]);
  int st = (int)r.below(6); static const char* nm[] = {"x", "y", "z", "u", "v", "w", "t", "s"};
  for (int i = 0; i < n; i++) s.vars.push_back(st == 0 && n <= 8 ? nm[i] : st == 1 ? "x" + std::to_string(i + 1) : st == 2 ? "x" + std::to_string(i == 0 ? 1 : i + 9) : st == 3 ? "x_" + std::to_string(i) : st == 4 ? std::string("longvariablename") + (char)('a' + i) : std::string(1, (char)('a' + i)));
  if (fam) *fam = fn[f];
  return s;
}
// Larger systems, beyond what the reference Groebner basis computation can handle.
Sys gen_big(Rng& r, u64 ch, bool zerodim, std::string* fam) {
  Sys s; s.ch = ch; int n = 0; std::vector<QPoly> P; AQ A; static const char* fn[] = {"katsura", "cyclic", "quadrics", "eco", "noon", "sparse", "cubics", "reimer", "posdim", "overdet", "mixed"};
  int f = (int)r.below(11); if (zerodim && f == 8) f = 2; bool qq = ch == 0; i64 cb = qq ? r.pick(std::vector<i64>{1, 9, 100}) : (i64)std::min<u64>(ch - 1, 1000000);
  auto rp = [&](int d, int num, int den) { QPoly p; // each monomial of degree at most d with probability num/den
    std::vector<int> e(n, 0); std::function<void(int, int)> go = [&](int i, int left) { if (i == n) { if (r.chance(num, den)) { i64 c = r.range(-cb, cb); if (c) { Mon m; for (int k = 0; k < n; k++) { m.e[k] = e[k]; m.deg += e[k]; } p.push_back({m, qi(c)}); } } return; } for (int k = 0; k <= left; k++) { e[i] = k; go(i + 1, left - k); } e[i] = 0; };
    go(0, d); if (p.size() < 2) { p.clear(); Mon m; m.e[r.below(n)] = d; m.deg = d; p.push_back({m, qi(1)}); p.push_back({Mon(), qi(-1)}); } A.norm(p); return p; };
  switch (f) {
    case 0: { n = (int)r.range(qq ? 4 : 5, qq ? 6 : 7); A = alg(n); int N = n - 1; auto u = [&](int l) { l = l < 0 ? -l : l; return l > N ? QPoly() : var(n, l); };
      for (int m = 0; m < N; m++) { QPoly p; for (int l = -N; l <= N; l++) p = addp(A, p, mulp(A, u(l), u(m - l))); P.push_back(addp(A, p, scale(u(m), qi(-1)))); }
      QPoly p = cst(-1); for (int l = -N; l <= N; l++) p = addp(A, p, u(l)); P.push_back(p); break; }
    case 1: { n = qq ? 5 : (int)r.range(5, 6); A = alg(n); for (int d = 1; d < n; d++) { QPoly p; for (int i = 0; i < n; i++) { QPoly q = cst(1); for (int j = 0; j < d; j++) q = mulp(A, q, var(n, (i + j) % n)); p = addp(A, p, q); } P.push_back(p); } QPoly q = cst(1); for (int j = 0; j < n; j++) q = mulp(A, q, var(n, j)); P.push_back(addp(A, q, cst(-1))); break; }
    case 2: { n = (int)r.range(qq ? 3 : 4, qq ? 4 : 6); A = alg(n); for (int i = 0; i < n; i++) P.push_back(rp(2, 1, 1)); break; }
    case 3: { n = (int)r.range(5, qq ? 7 : 8); A = alg(n); int m = n - 1; for (int k2 = 1; k2 <= m; k2++) { QPoly p = var(n, k2 - 1); for (int i = 1; i + k2 <= m; i++) p = addp(A, p, mulp(A, var(n, i - 1), var(n, i + k2 - 1))); p = mulp(A, p, var(n, n - 1)); P.push_back(addp(A, p, cst(-k2))); } QPoly p = cst(1); for (int i = 0; i < m; i++) p = addp(A, p, var(n, i)); P.push_back(p); break; }
    case 4: { n = (int)r.range(3, 4); A = alg(n); i64 c = r.range(1, 11); for (int i = 0; i < n; i++) { QPoly p; for (int j = 0; j < n; j++) if (j != i) p = addp(A, p, var(n, j, 2)); p = scale(mulp(A, p, var(n, i)), qi(10)); P.push_back(addp(A, addp(A, p, scale(var(n, i), qi(-c))), cst(10))); } break; }
    case 5: { n = (int)r.range(4, 7); A = alg(n); int m = n + (int)r.range(0, 2); for (int i = 0; i < m; i++) P.push_back(rp(2, 1, (int)r.range(3, 6))); break; }
    case 6: { n = (int)r.range(3, qq ? 3 : 4); A = alg(n); for (int i = 0; i < n; i++) P.push_back(rp(i ? 3 : 2, n > 3 ? 1 : 3, n > 3 ? 2 : 4)); break; }
    case 7: { n = (int)r.range(3, 4); A = alg(n); for (int i = 0; i < n; i++) { QPoly p = cst(-1); for (int j = 0; j < n; j++) p = addp(A, p, scale(var(n, j, i + 2), qi(j % 2 ? -2 : 2))); P.push_back(p); } break; }
    case 8: { n = (int)r.range(4, 7); A = alg(n); int m = (int)r.range(2, n - 1); for (int i = 0; i < m; i++) P.push_back(rp(r.chance(1, 4) ? 3 : 2, 1, (int)r.range(2, 5))); break; }
    case 9: { n = (int)r.range(5, 8); A = alg(n); int m = n + (int)r.range(2, 6); std::vector<i64> pt; for (int i = 0; i < n; i++) pt.push_back(r.range(-3, 3)); bool common = r.chance(2, 3);
      for (int i = 0; i < m; i++) { QPoly p = rp(2, 1, (int)r.range(1, 4)); if (common) { Q v; for (auto& t : p) { Q x = t.c; for (int k = 0; k < n; k++) for (int e = 0; e < t.m.e[k]; e++) x = QC().mul(x, qi(pt[k])); v = QC().add(v, x); } QPoly c; if (!fmpq_is_zero(v.v)) { c.push_back({Mon(), QC().sub(Q(), v)}); p = addp(A, p, c); } } P.push_back(p); } break; }
    default: { n = (int)r.range(3, 5); A = alg(n); for (int i = 0; i < n; i++) P.push_back(rp((int)r.range(1, 3), 1, 2)); break; }
  }
  if (!zerodim && r.chance(1, 3) && P.size() > 3) { P.push_back(addp(A, mulp(A, P[0], rp(1, 1, 2)), mulp(A, P[1], rp(1, 1, 2)))); if (r.chance(1, 2)) P.push_back(scale(P[r.below(P.size())], qi(3))); }
  for (auto& p : P) { QPoly q = p; if (ch) { AF F; F.f.p = ch; F.o = A.o; FPoly fp = to_fp(q, F); q.clear(); for (auto& t : fp) q.push_back({t.m, qi((i64)t.c)}); } if (!q.empty()) s.polys.push_back(q); }
  if (s.polys.empty()) s.polys.push_back(var(n, 0));
  for (size_t i = s.polys.size(); i > 1; i--) std::swap(s.polys[i - 1], s.polys[r.below(i)]);
  for (int i = 0; i < n; i++) s.vars.push_back("x" + std::to_string(i + 1));
  if (fam) *fam = fn[f];
  return s;
}
void knobs(Rng& r, std::vector<std::string>& a, bool prob_ok, int maxthr) {
  auto add = [&](const char* o, i64 v) { a.push_back(o); a.push_back(std::to_string(v)); };
  static const std::vector<int> th = {2, 2, 3, 4, 4, 5, 8}; int t = r.chance(1, 5) ? 1 : r.pick(th); if (t > maxthr) t = maxthr; if (t != 1 || r.chance(1, 2)) add("-t", t);
  static const std::vector<int> ex = {1, 2}, pr = {1, 2, 42, 44}; if (r.chance(3, 4)) add("-l", r.pick(prob_ok ? pr : ex));
  if (r.chance(1, 2)) add("-s", r.range(1, 14)); else if (r.chance(3, 4)) add("-s", 12);
  if (r.chance(1, 4)) add("-u", r.range(1, 4));
  if (r.chance(1, 3)) add("-m", r.pick(std::vector<int>{1, 2, 3, 5, 10, 100}));
  bool of = false; for (auto& x : a) if (x == "-o") of = true;
  if (of && r.chance(1, 10)) add("-v", r.range(1, 2));
}
void swarm(Rng& r, Scenario& s) {
  static const std::vector<int> sk = {SK_SEQ, SK_RANDOM, SK_RANDOM, SK_RANDOM, SK_PCT, SK_CONFLICT, SK_CONFLICT, SK_CONFLICT, SK_RR, SK_REVERSE, SK_STALL};
  s.sched = r.pick(sk); s.sched_seed = r.next() >> 8;
  static const std::vector<u64> gaps = {1, 3, 10, 30, 100, 300, 1000, 5000}; s.sched_gap = r.pick(gaps);
  if (s.sched == SK_RR && s.sched_gap < 3) s.sched_gap = 3;
  s.team = r.chance(1, 4); s.team_seed = r.next() >> 8;
  s.rand_seed = r.next() >> 8;
  s.clock = r.chance(1, 2) ? CK_NORMAL : (int)r.below(CK_NUM); s.clock_seed = r.next() >> 8;
  s.fill = (int)r.below(4); s.fill_seed = r.next() >> 8;
}
// Rewrites an input over the rationals so that it degenerates modulo the first primes a run
// draws when its first draw is v: P0 = the prime after 2^30 + v, P1 the next one, ...  No
// coefficient becomes divisible by them, so the degeneration can only be noticed later.
bool unlucky(Rng& r, Sys& s, u32& v) {
  if (s.ch || s.polys.empty()) return false;
  v = (u32)(r.chance(1, 2) ? r.below(1000) : r.below(230000000)); u64 P[6]; P[0] = next_prime_u64((1ULL << 30) + v); for (int i = 1; i < 6; i++) P[i] = next_prime_u64(P[i - 1]);
  int a = r.chance(1, 2) ? 1 : (int)r.range(1, 4), b = a; Q M = qi(1); for (int i = a; i <= b; i++) M = QC().mul(M, qi((i64)P[i]));
  M = QC().mul(M, qi(r.range(1 << 28, 1 << 30))); // P0 itself has to stay lucky: neighbouring primes are small modulo each other
  int n = s.n(); AQ A; A.o = Order{n, 0}; QC F; bool done = false;
  auto has_p = [&](const Q& c) { for (int i = a; i <= b; i++) if (fmpz_divisible_si(fmpq_numref(c.v), (slong)P[i])) return true; return false; };
  int kind = (int)r.below(5);
  if (kind == 4 && s.polys.size() > 1) { // a leading monomial gets smaller modulo the primes (solutions go to infinity), hidden behind another generator
    size_t i = r.below(s.polys.size()), j; do j = r.below(s.polys.size()); while (j == i);
    const QPoly& f = s.polys[j]; QPoly g = s.polys[i]; Mon m; bool ok = false;
    for (int t = 0; t < 2 && !ok; t++) {
      if (t) { Mon x; int k = (int)r.below(n); x.e[k] = 1; x.deg = 1; g.clear(); g.push_back({x, qi(1)}); if (r.chance(1, 2)) g.push_back({Mon(), qi(r.range(1, 9))}); }
      std::vector<Mon> c; for (auto& a : f) { bool big = true; for (auto& b : g) if (A.o.cmp(a.m, b.m) <= 0) big = false; if (big) c.push_back(a.m); }
      if (!c.empty()) { m = c[r.chance(1, 2) ? c.size() - 1 : r.below(c.size())]; ok = true; }
    }
    if (ok) {
      QPoly d; d.push_back({m, F.mul(M, qi(r.chance(1, 2) ? 1 : -1))}); QPoly z = addp(A, addp(A, scale(f, qi(r.range(1, 3))), d), g);
      for (auto& t : z) if (has_p(t.c)) ok = false; if (ok && !z.empty()) { s.polys[i] = z; done = true; }
    }
  }
  if (!done && kind == 0) { // two roots of one coordinate coincide modulo the primes
    int i = (int)r.below(n); QPoly q; i64 c = r.range(-4, 4); Q c2 = F.add(qi(c), F.mul(M, qi(r.range(1, 3)))); QPoly l1, l2; Mon m; m.e[i] = 1; m.deg = 1;
    l1.push_back({m, qi(1)}); if (c) l1.push_back({Mon(), qi(-c)}); l2.push_back({m, qi(1)}); l2.push_back({Mon(), F.mul(c2, qi(-1))}); q = mulp(A, l1, l2);
    bool ok = true; for (auto& t : q) if (has_p(t.c)) ok = false; if (ok) { s.polys[r.below(s.polys.size())] = q; done = true; }
  }
  if (!done && kind <= 2 && s.polys.size() > 1) { // a generator is a combination of others modulo the primes
    size_t i = r.below(s.polys.size()), j; do j = r.below(s.polys.size()); while (j == i); QPoly q = scale(s.polys[j], qi(r.range(1, 5)));
    if (r.chance(1, 3) && s.polys.size() > 2) { size_t k = r.below(s.polys.size()); if (k != i) q = addp(A, q, s.polys[k]); }
    if (!q.empty()) { QPoly d; for (auto& t : q) if (r.chance(1, 2)) d.push_back({t.m, F.mul(M, qi(r.range(1, 9)))}); if (d.empty()) d.push_back({q.back().m, M}); QPoly z = addp(A, q, d); bool ok = z.size() == q.size(); for (auto& t : z) if (has_p(t.c)) ok = false; if (ok) { s.polys[i] = z; done = true; } }
  }
  if (!done) { // coefficients change modulo the primes only
    size_t i = r.below(s.polys.size()); QPoly z = s.polys[i]; for (auto& t : z) if (r.chance(1, 2)) t.c = F.add(F.mul(M, qi(r.range(1, 9))), qi(r.range(0, 1) ? 1 : -1));
    bool ok = !z.empty(); for (auto& t : z) if (has_p(t.c)) ok = false; if (ok) { s.polys[i] = z; done = true; }
  }
  return done;
}

std::string spell(Rng& r, const Sys& s0, std::string& ref, bool split, bool pad) {
  Sys s = s0; int n = s.n();
  if (r.chance(1, 2)) { // names which are prefixes of each other, long names, other characters
    int st = (int)r.below(4); std::vector<std::string> v; std::string base = r.pick(std::vector<std::string>{"x", "X", "a_", "zeta", "E", "e1"});
    for (int i = 0; i < n; i++) { std::string nm = base; if (st == 0) nm += std::string(i, '1'); else if (st == 1) nm += std::to_string(i * 9 + 1); else if (st == 2) nm += std::string(r.range(20, 90), 'a' + (int)r.below(26)) + std::to_string(i); else nm += "_" + std::string(1, "qwertyuiop"[i % 10]) + std::to_string(i / 10); v.push_back(nm); }
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    s.vars = v;
  }
  ref = s.text();
  const char* nl = r.chance(1, 4) ? "\r\n" : "\n"; int dens = (int)r.pick(std::vector<int>{0, 0, 8, 3, 40}); bool multi = r.chance(1, 2), oneline = r.chance(1, 4); int big = (int)r.below(4);
  auto ws = [&]() { std::string o; if (dens && r.below(dens) == 0) { int k = (int)r.range(1, pad && r.chance(1, 20) ? 900 : 3); for (int i = 0; i < k; i++) o += multi && r.chance(1, 3) ? nl : " "; } return o; };
  std::string o; for (int i = 0; i < n; i++) { if (i) { o += ","; if (r.chance(1, 4)) o += " "; } o += s.vars[i]; } o += nl; o += std::to_string(s.ch); if (r.chance(1, 6)) o += " "; o += nl;
  for (size_t k = 0; k < s.polys.size(); k++) {
    struct T { Q c; Mon m; }; std::vector<T> ts;
    for (auto& t : s.polys[k]) {
      if (split && r.chance(1, 6)) { i64 a = r.range(-50, 50); Q q = qi(a); ts.push_back({QC().sub(t.c, q), t.m}); ts.push_back({q, t.m}); }
      else ts.push_back({t.c, t.m});
    }
    if (split && r.chance(1, 6)) ts.push_back({qi(0), rmon(r, n, 3)});
    if (split && r.chance(1, 6)) { Mon m = rmon(r, n, 4); i64 a = r.range(1, 1000); ts.push_back({qi(a), m}); ts.push_back({qi(-a), m}); }
    if (ts.empty()) ts.push_back({qi(0), Mon()});
    if (r.chance(1, 2)) for (size_t i = ts.size(); i > 1; i--) std::swap(ts[i - 1], ts[r.below(i)]);
    bool first = true;
    for (auto& t : ts) {
      std::string c, m; Q q = t.c;
      bool unit = !fmpq_is_zero(q.v) && fmpz_is_pm1(fmpq_numref(q.v)) && fmpz_is_one(fmpq_denref(q.v)); 
      if (s.ch) { // another integer (or fraction) with the same residue
        if (split && r.chance(1, 4)) { i64 f = big == 0 ? r.range(-3, 3) : big == 1 ? r.range(-2000000000, 2000000000) : big == 2 ? 4294967296LL : r.range(-4000000000000000000LL, 4000000000000000000LL); q = QC().add(q, QC().mul(qi(f), qi((i64)s.ch))); if (r.chance(1, 6)) q = QC().add(q, QC().mul(QC().mul(qi(4000000000000000000LL), qi(4000000000000000000LL)), qi((i64)s.ch))); }
        c = QC().str(q);
        if (split && r.chance(1, 8)) { i64 d = r.range(1, 12); if (d % (i64)s.ch) c = QC().str(QC().mul(q, qi(d))) + "/" + std::to_string(d); }
      } else { c = QC().str(q); if (split && r.chance(1, 6)) { // not in lowest terms
          i64 d = r.range(2, 12); fmpz_t a, b; fmpz_init(a); fmpz_init(b); fmpz_mul_si(a, fmpq_numref(q.v), d); fmpz_mul_si(b, fmpq_denref(q.v), d); char* x = fmpz_get_str(nullptr, 10, a); char* y = fmpz_get_str(nullptr, 10, b); c = std::string(x) + "/" + y; free(x); free(y); fmpz_clear(a); fmpz_clear(b); } }
      bool neg = c[0] == '-'; if (neg) c = c.substr(1);
      std::vector<std::string> fs; for (int v = 0; v < n; v++) { int e = t.m.e[v]; if (e && split && r.chance(1, 10)) { int a = (int)r.range(0, e); std::string w = s.vars[v]; fs.push_back(w + "^" + std::to_string(a)); fs.push_back(w + "^" + std::to_string(e - a)); } else if (e == 1 && !r.chance(1, 6)) fs.push_back(s.vars[v]); else if (e) fs.push_back(s.vars[v] + "^" + std::to_string(e)); }
      if (r.chance(1, 3)) for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[r.below(i)]);
      for (auto& f : fs) m += (m.empty() ? "" : ws() + "*" + ws()) + f;
      std::string body; if (m.empty()) body = c; else if (unit && c == "1" && !r.chance(1, 3)) body = m; else body = c + ws() + "*" + ws() + m;
      o += ws(); if (neg) o += "-"; else if (!first || r.chance(1, 10)) o += "+"; o += ws() + body; first = false;
    }
    if (k + 1 < s.polys.size()) { o += ws() + ","; if (!oneline) o += nl; if (r.chance(1, 12)) o += nl; }
  }
  if (!r.chance(1, 4)) o += nl; if (r.chance(1, 12)) o += nl;
  return o;
}
