// Small executable reference model: polynomial arithmetic and Buchberger's
// algorithm over GF(p) and QQ, written independently of msolve.
#pragma once
#include "rt.h"
#include <string.h>
#include <algorithm>
#include <memory>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpq.h>

static const int NV = 12;
struct Mon {
  u16 e[NV]; u16 deg;
  Mon() { memset(this, 0, sizeof *this); }
  bool operator==(const Mon& o) const { return !memcmp(e, o.e, sizeof e); }
};
inline Mon mmul(const Mon& a, const Mon& b) { Mon r; for (int i = 0; i < NV; i++) r.e[i] = a.e[i] + b.e[i]; r.deg = a.deg + b.deg; return r; }
inline bool mdivides(const Mon& a, const Mon& b) { if (a.deg > b.deg) return false; for (int i = 0; i < NV; i++) if (a.e[i] > b.e[i]) return false; return true; }
inline Mon mdiv(const Mon& b, const Mon& a) { Mon r; for (int i = 0; i < NV; i++) r.e[i] = b.e[i] - a.e[i]; r.deg = b.deg - a.deg; return r; }
inline Mon mlcm(const Mon& a, const Mon& b) { Mon r; int d = 0; for (int i = 0; i < NV; i++) { r.e[i] = std::max(a.e[i], b.e[i]); d += r.e[i]; } r.deg = d; return r; }
inline bool mcoprime(const Mon& a, const Mon& b) { for (int i = 0; i < NV; i++) if (a.e[i] && b.e[i]) return false; return true; }
// two-block DRL order; k = length of first block (0 = plain DRL on n variables, -1 = LEX)
struct Order {
  int n, k;
  int cmp(const Mon& a, const Mon& b) const {
    if (k < 0) { for (int i = 0; i < n; i++) if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? 1 : -1; return 0; }
    if (k) { int c = blk(a, b, 0, k); if (c) return c; return blk(a, b, k, n); }
    return blk(a, b, 0, n);
  }
  static int blk(const Mon& a, const Mon& b, int lo, int hi) {
    int da = 0, db = 0; for (int i = lo; i < hi; i++) { da += a.e[i]; db += b.e[i]; }
    if (da != db) return da > db ? 1 : -1;
    for (int i = hi - 1; i >= lo; i--) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? 1 : -1;
    return 0;
  }
};
struct OpCap { u64 left; bool hit = false; };
struct CapHit {};

struct FpC { // coefficient traits for GF(p)
  typedef u64 T; u64 p;
  T zero() const { return 0; } T one() const { return 1 % p; }
  bool isz(const T& a) const { return a == 0; }
  T add(const T& a, const T& b) const { u64 r = a + b; return r >= p ? r - p : r; }
  T sub(const T& a, const T& b) const { return a >= b ? a - b : a + p - b; }
  T mul(const T& a, const T& b) const { return (u64)((unsigned __int128)a * b % p); }
  T inv(const T& a) const { i64 t = 0, nt = 1; i64 r = (i64)p, nr = (i64)a; while (nr) { i64 q = r / nr; i64 x = t - q * nt; t = nt; nt = x; x = r - q * nr; r = nr; nr = x; } return t < 0 ? (u64)(t + (i64)p) : (u64)t; }
  bool eq(const T& a, const T& b) const { return a == b; }
  std::string str(const T& a) const { return std::to_string(a); }
  u64 cost(const T&) const { return 1; }
};
struct Q {
  fmpq_t v;
  Q() { fmpq_init(v); } Q(const Q& o) { fmpq_init(v); fmpq_set(v, o.v); } Q(Q&& o) { fmpq_init(v); fmpq_swap(v, o.v); }
  Q& operator=(const Q& o) { fmpq_set(v, o.v); return *this; } Q& operator=(Q&& o) { fmpq_swap(v, o.v); return *this; }
  ~Q() { fmpq_clear(v); }
  bool operator==(const Q& o) const { return fmpq_equal(v, o.v); }
};
struct QC {
  typedef Q T;
  T zero() const { return Q(); } T one() const { Q r; fmpq_one(r.v); return r; }
  bool isz(const T& a) const { return fmpq_is_zero(a.v); }
  T add(const T& a, const T& b) const { Q r; fmpq_add(r.v, a.v, b.v); return r; }
  T sub(const T& a, const T& b) const { Q r; fmpq_sub(r.v, a.v, b.v); return r; }
  T mul(const T& a, const T& b) const { Q r; fmpq_mul(r.v, a.v, b.v); return r; }
  T inv(const T& a) const { Q r; fmpq_inv(r.v, a.v); return r; }
  bool eq(const T& a, const T& b) const { return fmpq_equal(a.v, b.v); }
  std::string str(const T& a) const { char* s = fmpq_get_str(nullptr, 10, a.v); std::string r = s; flint_free(s); return r; }
  u64 cost(const T& a) const { return 4 + fmpz_bits(fmpq_numref(a.v)) / 32; }
};

template <class F> struct Alg {
  typedef typename F::T T;
  struct Term { Mon m; T c; };
  typedef std::vector<Term> Poly;      // strictly decreasing monomials, nonzero coefficients
  F f; Order o; OpCap* cap = nullptr;
  void spend(u64 n) const { if (cap) { if (cap->left < n) { cap->left = 0; cap->hit = true; throw CapHit(); } cap->left -= n; } }
  void norm(Poly& p) const {
    std::sort(p.begin(), p.end(), [&](const Term& a, const Term& b) { return o.cmp(a.m, b.m) > 0; });
    Poly r; for (auto& t : p) { if (!r.empty() && r.back().m == t.m) r.back().c = f.add(r.back().c, t.c); else { if (!r.empty() && f.isz(r.back().c)) r.pop_back(); r.push_back(t); } }
    if (!r.empty() && f.isz(r.back().c)) r.pop_back();
    p.swap(r);
  }
  // a - c*m*b   (a from index ia)
  Poly submul(const Poly& a, size_t ia, const T& c, const Mon& m, const Poly& b, size_t ib) const {
    Poly r; r.reserve(a.size() - ia + b.size() - ib); size_t i = ia, j = ib;
    spend((a.size() - ia) + (b.size() - ib) * f.cost(c));
    Mon mb; bool have = false;
    while (i < a.size() || j < b.size()) {
      if (j < b.size() && !have) { mb = mmul(b[j].m, m); have = true; }
      int cm = i >= a.size() ? -1 : j >= b.size() ? 1 : o.cmp(a[i].m, mb);
      if (cm > 0) r.push_back(a[i++]);
      else if (cm < 0) { r.push_back({mb, f.sub(f.zero(), f.mul(c, b[j].c))}); j++; have = false; }
      else { T v = f.sub(a[i].c, f.mul(c, b[j].c)); if (!f.isz(v)) r.push_back({mb, v}); i++; j++; have = false; }
    }
    return r;
  }
  void monic(Poly& p) const { if (p.empty()) return; T iv = f.inv(p[0].c); for (auto& t : p) t.c = f.mul(t.c, iv); }
  // full normal form w.r.t. monic G
  Poly nf(Poly p, const std::vector<Poly>& G, int skip = -1) const {
    Poly r; size_t k = 0;
    while (k < p.size()) {
      bool red = false;
      for (size_t g = 0; g < G.size(); g++) if ((int)g != skip && !G[g].empty() && mdivides(G[g][0].m, p[k].m)) {
        T c = p[k].c; p = submul(p, k, c, mdiv(p[k].m, G[g][0].m), G[g], 0); k = 0; red = true; break;
      }
      if (!red) { r.push_back(p[k]); k++; }
    }
    return r;
  }
  // head-only reduction helper used inside Buchberger
  Poly hred(Poly p, const std::vector<Poly>& G, const std::vector<char>& dead) const {
    while (!p.empty()) {
      bool red = false;
      for (size_t g = 0; g < G.size(); g++) if (!dead[g] && mdivides(G[g][0].m, p[0].m)) { T c = p[0].c; p = submul(p, 0, c, mdiv(p[0].m, G[g][0].m), G[g], 0); red = true; break; }
      if (!red) break;
    }
    return p;
  }
  struct Pair { size_t i, j; Mon l; int sug; };
  // reduced, monic, sorted by increasing leading monomial
  std::vector<Poly> gb(std::vector<Poly> in) const {
    std::vector<Poly> G; std::vector<char> dead; std::vector<int> sug; std::vector<Pair> P;
    std::vector<Poly> fin; for (auto& p : in) if (!p.empty()) { Poly q = p; norm(q); if (q.empty()) continue; monic(q); fin.push_back(q); }
    std::sort(fin.begin(), fin.end(), [&](const Poly& a, const Poly& b) { return o.cmp(a[0].m, b[0].m) < 0; });
    auto pdeg = [](const Poly& p) { int d = 0; for (auto& t : p) d = std::max<int>(d, t.m.deg); return d; };
    auto addp = [&](Poly h, int s) {
      monic(h); size_t k = G.size(); Mon lm = h[0].m;
      // Gebauer-Moeller
      std::vector<Pair> np;
      for (auto& p : P) if (!(mdivides(lm, p.l) && !(mlcm(G[p.i][0].m, lm) == p.l) && !(mlcm(G[p.j][0].m, lm) == p.l))) np.push_back(p);
      P.swap(np);
      std::vector<Pair> N;
      for (size_t i = 0; i < k; i++) if (!dead[i]) { Pair q; q.i = i; q.j = k; q.l = mlcm(G[i][0].m, lm); q.sug = std::max(sug[i] + q.l.deg - G[i][0].m.deg, s + q.l.deg - lm.deg); N.push_back(q); }
      std::vector<char> rm(N.size(), 0);
      for (size_t a = 0; a < N.size(); a++) for (size_t b = 0; b < N.size() && !rm[a]; b++) if (a != b && !rm[b]) {
        if (mdivides(N[b].l, N[a].l)) {
          if (!(N[b].l == N[a].l)) rm[a] = 1;
          else if (b < a && !mcoprime(G[N[a].i][0].m, lm)) rm[a] = 1;
          else if (mcoprime(G[N[b].i][0].m, lm) && !mcoprime(G[N[a].i][0].m, lm)) rm[a] = 1;
        }
      }
      for (size_t a = 0; a < N.size(); a++) if (!rm[a] && !mcoprime(G[N[a].i][0].m, lm)) P.push_back(N[a]);
      for (size_t i = 0; i < k; i++) if (!dead[i] && mdivides(lm, G[i][0].m)) dead[i] = 1;
      G.push_back(h); dead.push_back(0); sug.push_back(s);
    };
    for (auto& p : fin) { Poly h = hred(p, G, dead); if (!h.empty()) addp(h, pdeg(p)); }
    while (!P.empty()) {
      size_t b = 0; for (size_t i = 1; i < P.size(); i++) if (P[i].sug < P[b].sug || (P[i].sug == P[b].sug && o.cmp(P[i].l, P[b].l) < 0)) b = i;
      Pair p = P[b]; P[b] = P.back(); P.pop_back(); spend(P.size() + 8);
      Poly s; Mon mi = mdiv(p.l, G[p.i][0].m); for (auto& t : G[p.i]) s.push_back({mmul(t.m, mi), t.c});
      s = submul(s, 0, f.one(), mdiv(p.l, G[p.j][0].m), G[p.j], 0);
      // dead elements still have valid reducers among later ones
      Poly h = hred(s, G, dead);
      if (!h.empty()) { addp(h, p.sug); if (h[0].m.deg == 0) { Poly one; one.push_back({Mon(), f.one()}); return {one}; } }
    }
    std::vector<Poly> R; for (size_t i = 0; i < G.size(); i++) if (!dead[i]) R.push_back(G[i]);
    std::sort(R.begin(), R.end(), [&](const Poly& a, const Poly& b) { return o.cmp(a[0].m, b[0].m) < 0; });
    for (size_t i = 0; i < R.size(); i++) { R[i] = nf(R[i], R, (int)i); monic(R[i]); }
    return R;
  }
  bool same(const Poly& a, const Poly& b) const { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i].m == b[i].m) || !f.eq(a[i].c, b[i].c)) return false; return true; }
  bool same(const std::vector<Poly>& a, const std::vector<Poly>& b) const { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
  std::string str(const Poly& p, const std::vector<std::string>& v) const {
    if (p.empty()) return "0"; std::string s;
    for (auto& t : p) { if (!s.empty()) s += "+"; s += f.str(t.c); for (int i = 0; i < o.n; i++) if (t.m.e[i]) { s += "*" + v[i]; if (t.m.e[i] > 1) s += "^" + std::to_string(t.m.e[i]); } }
    return s;
  }
};
typedef Alg<FpC> AF; typedef Alg<QC> AQ;
typedef AQ::Poly QPoly; typedef AF::Poly FPoly;

// ---------------------------------------------------------------- systems
struct Sys {              // an msolve input: integer/rational coefficient polynomials
  u64 ch = 0; std::vector<std::string> vars; std::vector<QPoly> polys;
  int n() const { return (int)vars.size(); }
  std::string text(Rng* style = nullptr) const;
};
Q qi(i64 v);
Q qstr(const std::string& s);
// parse one polynomial expression over the given variables
bool parse_poly(const std::string& s, const std::vector<std::string>& vars, QPoly& out);
bool parse_sys(const std::string& text, Sys& s);
FPoly to_fp(const QPoly& p, const AF& A);           // coefficients mod p, normalised in A's order
QPoly reorder(const QPoly& p, const AQ& A);

struct GBOut { bool ok = false; std::string why; u64 ch = 0; std::vector<std::string> vars; std::vector<QPoly> polys; i64 len = -1; bool lead = false; };
GBOut parse_gb(const std::string& text);
GBOut parse_list(const std::string& text, const std::vector<std::string>& vars);  // "[p,\np]:" body only

// generic nested list of integers/strings:  [0, [1, ['x'], 3 / 2^5 ]]
struct Node { bool list = false; std::vector<Node> kids; std::string atom; };
bool parse_node(const std::string& s, size_t& p, Node& n);

bool is_prime_u64(u64 n); u64 next_prime_u64(u64 n);
