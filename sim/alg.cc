#include "alg.h"
#include <flint/ulong_extras.h>
Q qi(i64 v) { Q r; fmpq_set_si(r.v, v, 1); return r; }
Q qstr(const std::string& s) { Q r; fmpq_set_str(r.v, s.c_str(), 10); fmpq_canonicalise(r.v); return r; }
bool is_prime_u64(u64 n) { return n_is_prime(n); }
u64 next_prime_u64(u64 n) { return n_nextprime(n, 1); }

static void skipws(const std::string& s, size_t& p) { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
bool parse_poly(const std::string& s, const std::vector<std::string>& vars, QPoly& out) {
  out.clear(); size_t p = 0; skipws(s, p); bool any = false;
  AQ A; A.o = Order{(int)vars.size(), 0};
  while (p < s.size()) {
    int sg = 1; skipws(s, p); bool gotsign = false;
    while (p < s.size() && (s[p] == '+' || s[p] == '-')) { if (s[p] == '-') sg = -sg; p++; gotsign = true; skipws(s, p); }
    if (any && !gotsign) return false;
    Q c = qi(sg); Mon m; bool fac = false;
    for (;;) {
      skipws(s, p); if (p >= s.size()) return false;
      if (isdigit((unsigned char)s[p])) {
        size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++;
        std::string num = s.substr(b, p - b); skipws(s, p);
        if (p < s.size() && s[p] == '/') { p++; skipws(s, p); b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == b) return false; num += "/" + s.substr(b, p - b); }
        c = QC().mul(c, qstr(num));
      } else {
        size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++;
        if (p == b) return false; std::string v = s.substr(b, p - b); int vi = -1; for (size_t i = 0; i < vars.size(); i++) if (vars[i] == v) vi = (int)i; if (vi < 0) return false;
        int e = 1; skipws(s, p); if (p < s.size() && s[p] == '^') { p++; skipws(s, p); b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (b == p) return false; e = atoi(s.substr(b, p - b).c_str()); }
        m.e[vi] += e; m.deg += e;
      }
      fac = true; skipws(s, p);
      if (p < s.size() && s[p] == '*') { p++; continue; } break;
    }
    if (!fac) return false; any = true;
    if (!fmpq_is_zero(c.v)) out.push_back({m, c});
    skipws(s, p); if (p < s.size() && s[p] != '+' && s[p] != '-') return false;
  }
  if (!any) return false;
  A.norm(out); return true;
}
bool parse_sys(const std::string& t, Sys& s) {
  size_t e = t.find('\n'); if (e == std::string::npos) return false;
  std::string l = t.substr(0, e); size_t p = 0; s.vars.clear(); s.polys.clear();
  std::string cur; for (char c : l) { if (c == ',') { s.vars.push_back(cur); cur.clear(); } else if (!isspace((unsigned char)c)) cur += c; } s.vars.push_back(cur);
  size_t e2 = t.find('\n', e + 1); if (e2 == std::string::npos) return false;
  s.ch = strtoull(t.substr(e + 1, e2 - e - 1).c_str(), nullptr, 10);
  std::string body = t.substr(e2 + 1); cur.clear();
  for (char c : body) { if (c == ',') { QPoly q; if (!parse_poly(cur, s.vars, q)) return false; s.polys.push_back(q); cur.clear(); } else if (c != '\n' && c != '\r') cur += c; }
  QPoly q; if (!parse_poly(cur, s.vars, q)) return false; s.polys.push_back(q); (void)p; return true;
}
std::string Sys::text(Rng* r) const {
  std::string o; for (size_t i = 0; i < vars.size(); i++) { if (i) o += ","; o += vars[i]; } o += "\n" + std::to_string(ch) + "\n";
  for (size_t k = 0; k < polys.size(); k++) {
    const QPoly& p = polys[k]; std::string s;
    std::vector<size_t> ix(p.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
    if (r && r->chance(1, 3)) for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[r->below(i)]);
    bool caret1 = r && r->chance(1, 4), one = r && r->chance(1, 3), minusneg = true;
    for (size_t i : ix) {
      const auto& t = p[i]; std::string c = QC().str(t.c); bool neg = c[0] == '-'; if (neg) c = c.substr(1);
      if (neg) s += "-"; else if (!s.empty()) s += "+";
      std::string m; for (int v = 0; v < n(); v++) if (t.m.e[v]) { if (!m.empty()) m += "*"; m += vars[v]; if (t.m.e[v] > 1 || caret1) m += "^" + std::to_string(t.m.e[v]); }
      if (m.empty()) s += c; else if (c == "1" && !one) s += m; else s += c + "*" + m;
    }
    if (s.empty()) s = "0";
    o += s; o += k + 1 < polys.size() ? ",\n" : "\n";
  }
  return o;
}
FPoly to_fp(const QPoly& p, const AF& A) {
  FPoly r; for (auto& t : p) { u64 nu = fmpz_fdiv_ui(fmpq_numref(t.c.v), A.f.p), de = fmpz_fdiv_ui(fmpq_denref(t.c.v), A.f.p); if (de == 0) de = 1; u64 c = A.f.mul(nu, A.f.inv(de)); if (c) r.push_back({t.m, c}); }
  A.norm(r); return r;
}
QPoly reorder(const QPoly& p, const AQ& A) { QPoly r = p; A.norm(r); return r; }

static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
GBOut parse_list(const std::string& t0, const std::vector<std::string>& vars) {
  GBOut g; g.vars = vars; std::string t = trim(t0);
  if (t.empty()) { g.why = "empty output"; return g; }
  if (t[0] != '[' || t.size() < 3 || t.substr(t.size() - 2) != "]:") { g.why = "malformed or truncated list"; return g; }
  std::string b = t.substr(1, t.size() - 3), cur; b += ",";
  if (trim(b) == ",") { g.ok = true; return g; }
  for (char c : b) { if (c == ',') { QPoly q; if (!parse_poly(trim(cur), vars, q)) { g.why = "unparsable polynomial '" + trim(cur).substr(0, 80) + "'"; return g; } g.polys.push_back(q); cur.clear(); } else cur += c; }
  g.ok = true; return g;
}
GBOut parse_gb(const std::string& t) {
  GBOut g; size_t p = 0; bool seenhead = false; std::vector<std::string> vars; i64 len = -1; u64 ch = 0; bool lead = false; std::string order;
  while (p < t.size() && t[p] == '#') {
    size_t e = t.find('\n', p); if (e == std::string::npos) { g.why = "truncated header"; return g; }
    std::string l = t.substr(p, e - p); p = e + 1; seenhead = true;
    size_t c = l.find(':');
    if (l.find("#Leading ideal") == 0) lead = true;
    if (c != std::string::npos) {
      std::string v = trim(l.substr(c + 1));
      if (l.find("#field characteristic") == 0) ch = strtoull(v.c_str(), nullptr, 10);
      if (l.find("#variable order") == 0) { std::string cur; for (char x : v + ",") { if (x == ',') { vars.push_back(trim(cur)); cur.clear(); } else cur += x; } }
      if (l.find("#length of basis") == 0) len = atoll(v.c_str());
    }
  }
  if (!seenhead) { g.why = t.empty() ? "empty output" : "no header"; return g; }
  g = parse_list(t.substr(p), vars); g.ch = ch; g.len = len; g.lead = lead;
  if (g.ok && len == 0 && g.polys.size() == 1 && g.polys[0].empty()) g.polys.clear();   // the zero ideal is printed as [0]
  if (g.ok && len >= 0 && (i64)g.polys.size() != len) { g.ok = false; g.why = "header says " + std::to_string(len) + " elements, list has " + std::to_string(g.polys.size()); }
  return g;
}
bool parse_node(const std::string& s, size_t& p, Node& n) {
  skipws(s, p); if (p >= s.size()) return false;
  if (s[p] == '[') {
    n.list = true; p++; skipws(s, p);
    if (p < s.size() && s[p] == ']') { p++; return true; }
    for (;;) { Node k; if (!parse_node(s, p, k)) return false; n.kids.push_back(std::move(k)); skipws(s, p); if (p >= s.size()) return false; if (s[p] == ',') { p++; continue; } if (s[p] == ']') { p++; return true; } return false; }
  }
  size_t b = p; while (p < s.size() && s[p] != ',' && s[p] != ']' && s[p] != '[' && s[p] != ':') p++;
  n.atom = trim(s.substr(b, p - b)); return !n.atom.empty();
}
