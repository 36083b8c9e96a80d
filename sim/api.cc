// Library histories: several calls of the public entry points in one simulated process,
// with their results kept alive across later calls.  Every result is written to api.out.
#include "rt.h"
#include "gen.h"
#include <gmp.h>
#include <flint/fmpz.h>
#include <sstream>
extern "C" {
void* sim_malloc(size_t); void sim_free(void*); FILE* sim_fopen(const char*, const char*);
int64_t export_f4(void* (*)(size_t), int32_t*, int32_t**, int32_t**, void**, const int32_t*, const int32_t*, const void*, uint32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t);
int64_t export_nf(void* (*)(size_t), int32_t*, int32_t**, int32_t**, void**, int32_t, const int32_t*, const int32_t*, const void*, int32_t, const int32_t*, const int32_t*, const void*, uint32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t);
int64_t export_groebner_qq(void* (*)(size_t), int32_t*, int32_t**, int32_t**, void**, const int32_t*, const int32_t*, const void*, uint32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t);
void msolve_julia(void* (*)(size_t), int32_t*, int32_t*, int32_t*, int32_t*, int32_t**, char***, void**, void**, int32_t*, void**, int32_t**, int32_t*, int32_t*, void*, char**, char*, uint32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t);
void free_f4_julia_result_data(void (*)(void*), int32_t**, int32_t**, void**, int64_t, int64_t);
}
typedef std::string string;
// the caller's allocator, as a language binding would provide it
static std::map<void*, size_t> g_blocks;
static void* my_malloc(size_t n) { void* p = sim_malloc(n ? n : 1); g_blocks[p] = n; return p; }
static void my_free(void* p) { g_blocks.erase(p); sim_free(p); }

struct In { int nv = 0; std::vector<int32_t> lens, exps, cf; std::vector<mpz_t*> q; std::vector<char*> names; u64 ch = 0;
  u64 hash() const { u64 h = hbytes(lens.data(), lens.size() * 4); h = hbytes(exps.data(), exps.size() * 4, h); for (auto c : cf) { i64 x = c % (i64)ch; if (x < 0) x += ch; h = hmix(h, x); } /* the residues may be normalised in place */ for (auto* z : q) { char* s = mpz_get_str(nullptr, 16, *z); h = hbytes(s, strlen(s), h); free(s); } return h; } };
static In make(const Sys& s, size_t a, size_t b, int neg) {
  In r; r.nv = s.n(); r.ch = s.ch;
  for (auto& v : s.vars) r.names.push_back(strdup(v.c_str()));
  for (size_t i = a; i < b; i++) {
    r.lens.push_back((int32_t)s.polys[i].size());
    for (auto& t : s.polys[i]) {
      for (int k = 0; k < r.nv; k++) r.exps.push_back(t.m.e[k]);
      if (s.ch) { i64 c = fmpz_fdiv_ui(fmpq_numref(t.c.v), s.ch); if (neg && c > (i64)s.ch / 2) c -= (i64)s.ch; r.cf.push_back((int32_t)c); }
      else for (int k = 0; k < 2; k++) { mpz_t* z = (mpz_t*)malloc(sizeof(mpz_t)); mpz_init(*z); fmpz_get_mpz(*z, k ? fmpq_denref(t.c.v) : fmpq_numref(t.c.v)); r.q.push_back(z); }
    }
  }
  return r;
}
static void out_mpz(std::ostringstream& o, const mpz_t z) { char* s = mpz_get_str(nullptr, 10, z); o << s; free(s); }
struct Kept { char kind = 0; u64 ch = 0; int nv = 0; int32_t ld = 0, *len = nullptr, *exp = nullptr; void* cf = nullptr; int64_t nt = 0;
  int32_t jld = 0, jnv = 0, jdim = 0, jdq = 0, nreal = 0; char** names = nullptr; void *lf = nullptr, *sn = nullptr; int32_t* sd = nullptr; bool freed = false; string shown; };
static string show(const Kept& k) {
  std::ostringstream o;
  if (k.kind == 'g') {
    o << "gb " << k.nt << " " << k.ld << "\n"; size_t t = 0;
    for (int i = 0; i < k.ld; i++) { o << k.len[i]; for (int j = 0; j < k.len[i]; j++, t++) { o << " "; if (k.ch) o << ((int32_t*)k.cf)[t]; else out_mpz(o, ((mpz_t*)k.cf)[t]); for (int v = 0; v < k.nv; v++) o << " " << k.exp[t * k.nv + v]; } o << "\n"; }
  } else {
    o << "julia " << k.jld << " " << k.jnv << " " << k.jdim << " " << k.jdq << " " << k.nreal << "\n";
    bool par = k.jld > 0 && k.len && k.cf; o << (par ? 1 : 0) << "\n";
    if (par) {
      for (int i = 0; i < k.jld - 1; i++) o << k.names[i] << " "; o << "\n";
      if (k.lf) { o << k.jnv; for (int i = 0; i < k.jnv; i++) { o << " "; out_mpz(o, ((mpz_t*)k.lf)[i]); } } else o << 0; o << "\n";
      size_t t = 0; for (int i = 0; i < k.jld; i++) { o << k.len[i]; for (int j = 0; j < k.len[i]; j++, t++) { o << " "; out_mpz(o, ((mpz_t*)k.cf)[t]); } o << "\n"; }
      int pv = k.nv; size_t c = 0; // real points have the caller's variables
      for (int i = 0; i < k.nreal; i++) { for (int v = 0; v < 2 * pv; v++, c++) { if (!k.sn) break; out_mpz(o, ((mpz_t*)k.sn)[c]); o << " " << k.sd[c] << " "; } o << "\n"; }
    }
  }
  return o.str();
}
int sim_api_main(const std::vector<string>& prog) {
  std::vector<Kept*> kept; std::ostringstream log;
  for (auto& line : prog) {
    std::istringstream is(line); string op, f, tok; is >> op >> f; std::map<string, long> o; while (is >> tok) { size_t e = tok.find('='); if (e != string::npos) o[tok.substr(0, e)] = atol(tok.c_str() + e + 1); }
    auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
    if (op == "free") { size_t i = (size_t)atol(f.c_str()); if (i < kept.size() && kept[i]->kind == 'g' && !kept[i]->freed) { Kept* k = kept[i]; string s = show(*k); if (s != k->shown) log << "changed " << i << "\n"; k->freed = true; if (k->ch || g_blocks.count(k->cf)) {} free_f4_julia_result_data(my_free, &k->len, &k->exp, &k->cf, k->ld, k->ch); log << "freed " << i << "\n"; } continue; }
    string text; { FILE* fp = sim_fopen(f.c_str(), "r"); if (!fp) { log << "nofile\n"; continue; } char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) text.append(b, n); fclose(fp); }
    Sys s; if (!parse_sys(text, s)) { log << "noparse\n"; continue; }
    Kept* k = new Kept; k->ch = s.ch; k->nv = s.n(); size_t n = s.polys.size(); u64 h0, h1; int64_t ret = 0;
    if (op == "f4" || op == "gbqq") {
      In in = make(s, 0, n, (int)g("neg", 0)); h0 = in.hash(); k->kind = 'g';
      if (op == "f4") ret = export_f4(my_malloc, &k->ld, &k->len, &k->exp, &k->cf, in.lens.data(), in.exps.data(), in.cf.data(), (uint32_t)s.ch, (int)g("ord", 0), (int)g("elim", 0), in.nv, (int)n, (int)g("ht", 17), (int)g("thr", 1), (int)g("pairs", 0), (int)g("reset", 0), (int)g("la", 2), 1, 0, 0);
      else ret = export_groebner_qq(my_malloc, &k->ld, &k->len, &k->exp, &k->cf, in.lens.data(), in.exps.data(), in.q.data(), 0, (int)g("ord", 0), (int)g("elim", 0), in.nv, (int)n, (int)g("ht", 17), (int)g("thr", 1), (int)g("pairs", 0), (int)g("reset", 0), (int)g("la", 2), 1, 0, 0, 0);
      h1 = in.hash();
    } else if (op == "nf") {
      size_t kk = (size_t)g("k", 1); In in = make(s, 0, n - kk, (int)g("neg", 0)), t = make(s, n - kk, n, (int)g("neg", 0)); h0 = in.hash() ^ (t.hash() * 3); k->kind = 'g';
      ret = export_nf(my_malloc, &k->ld, &k->len, &k->exp, &k->cf, (int)kk, t.lens.data(), t.exps.data(), t.cf.data(), (int)(n - kk), in.lens.data(), in.exps.data(), in.cf.data(), (uint32_t)s.ch, 0, 0, in.nv, (int)g("isgb", 0), (int)g("thr", 1), 0);
      h1 = in.hash() ^ (t.hash() * 3);
    } else if (op == "julia") {
      In in = make(s, 0, n, 0); h0 = in.hash(); k->kind = 'j'; string of = "julia.ms"; char* ofp = g("file", 1) ? strdup(of.c_str()) : nullptr;
      // a binding hands over whatever its variables hold
      k->jld = -77; k->nreal = -77;
      msolve_julia(my_malloc, &k->jld, &k->jnv, &k->jdim, &k->jdq, &k->len, &k->names, &k->lf, &k->cf, &k->nreal, &k->sn, &k->sd, in.lens.data(), in.exps.data(), in.q.data(), in.names.data(), ofp, 0, 0, 0, in.nv, (int)n, (int)g("ht", 17), (int)g("thr", 1), (int)g("pairs", 0), (int)g("reset", 0), (int)g("la", 2), 0, 0, (int)g("param", 1), 2, (int)g("prec", 64), 0);
      h1 = in.hash();
    } else { delete k; log << "noop\n"; continue; }
    k->nt = ret; k->shown = show(*k); log << "op " << kept.size() << " " << op << " " << f << "\n" << k->shown; if (h0 != h1) log << "input-changed\n"; log << "end\n"; kept.push_back(k);
  }
  for (size_t i = 0; i < kept.size(); i++) { if (kept[i]->freed) continue; string t = show(*kept[i]); if (t != kept[i]->shown) log << "changed " << i << "\n" << t; }
  log << "done\n"; string t = log.str(); FILE* fp = sim_fopen("api.out", "w"); if (!fp) return 3; fwrite(t.data(), 1, t.size(), fp); fclose(fp);
  return 0;
}
