#include "props.h"
#include <stdio.h>
#include <stdlib.h>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <dirent.h>
using std::string; using std::vector;
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static string slurp(const string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const string& p, const string& d) { std::ofstream f(p); f << d; }
static string g_dir;       // directory of the executables

#define BLOOM (1u << 26)
struct Agg {
  volatile u64 next, stop; u64 ncases; double deadline;
  u64 cases, runs, discards, steps, psteps, regions, switches, sim_us, conflicts, teams_small, rand_forced, nontrivial, viol, clock_runs[CK_NUM], sched_runs[SK_NUM], variant_runs[2], fill_runs[4], fired[F_NUM], nread, nwrite, nopen, nalloc, nrand, nclock, maxsteps, distinct_inter, distinct_conf, distinct_in, distinct_out, ends[10], threads_gt1;
  u64 detcheck, detfail, errors, replays, known[64];
unsigned char bloom[4][BLOOM / 8];
};
typedef unsigned char u8_;
static Agg* G;
static bool bset(int k, u64 h) { h = hmix(h, 0x77 + k); u64 b = h % BLOOM; u8_ m = 1 << (b & 7); u8_ o = __sync_fetch_and_or(&G->bloom[k][b >> 3], m); return !(o & m); }
static void add(u64& x, u64 v) { __sync_fetch_and_add(&x, v); }

static void account(const Scenario& s, const Result& r) {
  add(G->runs, 1); add(G->steps, r.steps); add(G->psteps, r.psteps); add(G->regions, r.regions); add(G->switches, r.switches); add(G->sim_us, r.sim_us); add(G->conflicts, r.conflicts);
  add(G->teams_small, r.teams_small); add(G->rand_forced, r.rand_forced); add(G->clock_runs[s.clock], 1); add(G->sched_runs[s.sched], 1); add(G->variant_runs[s.variant], 1); add(G->fill_runs[s.fill & 3], 1);
  for (int i = 0; i < F_NUM; i++) if (r.fired[i]) add(G->fired[i], r.fired[i]);
  add(G->nread, r.nread); add(G->nwrite, r.nwrite); add(G->nopen, r.nopen); add(G->nalloc, r.nalloc); add(G->nrand, r.nrand); add(G->nclock, r.nclock);
  add(G->ends[r.end], 1); if (r.switches) add(G->threads_gt1, 1);
  if (r.steps > G->maxsteps) G->maxsteps = r.steps;
  if (r.switches && bset(0, r.switch_hash)) add(G->distinct_inter, 1);
  for (u64 c : r.confpairs) if (bset(1, c)) add(G->distinct_conf, 1);
  u64 h = 7; for (auto& f : s.files) h = hmix(h, hbytes(f.second.data(), f.second.size())); for (auto& a : s.argv) h = hmix(h, hbytes(a.data(), a.size())); for (auto& f : s.faults) h = hmix(h, f.kind * 1000003 + f.at);
  h = hmix(h, r.switch_hash); if (bset(2, h)) { add(G->distinct_in, 1); if (r.switches || !s.faults.empty() || r.rand_forced || r.teams_small || s.clock != CK_NORMAL || s.fill) add(G->nontrivial, 1); }
}
static vector<Result> exec_case(const Case& c, Env& e, bool acc) { vector<Result> rs; for (auto& s : c.runs) { rs.push_back(e.run(s)); if (acc) account(s, rs.back()); } return rs; }
static u64 case_hash(const vector<Result>& rs) { u64 h = 1; for (auto& r : rs) h = hmix(h, r.hash); return h; }

static Env mkenv() { Env e; e.z[0] = new Zygote; e.z[1] = new Zygote; e.z[0]->start((g_dir + "/msim-native").c_str()); e.z[1]->start((g_dir + "/msim-scalar").c_str()); return e; }

static bool gen_case(const Prop* p, u64 seed, Env& e, Case& c) {
  for (int attempt = 0; attempt < 50; attempt++) { c = Case(); c.prop = p->id; c.seed = seed; Rng r(hmix(hmix(seed, hbytes(p->id, 3)), attempt)); if (p->gen(r, e, c)) return true; add(G->discards, 1); }
  return false;
}

// --------------------------------------------------------------- minimisation
static bool fails(const Prop* p, const Case& c, Env& e, const string& cls, Verdict* out = nullptr) {
  auto rs = exec_case(c, e, false); Verdict v = p->judge(c, rs, e); if (out) *out = v; return v.bad && v.cls == cls;
}
static void explicit_schedule(Case& c, const vector<Result>& rs) { for (size_t i = 0; i < c.runs.size(); i++) if (c.runs[i].sched != SK_REPLAY) { c.runs[i].sched = SK_REPLAY; c.runs[i].decisions = rs[i].decisions; } }
static Case minimise(const Prop* p, Case c, Env& e, const string& cls, int run, double until) {
  Case best = c; 
  if (!p->multi && c.runs.size() > 1) { Case d = c; d.runs = {c.runs[run]}; if (fails(p, d, e, cls)) best = d; }
  { Case d = best; auto rs = exec_case(d, e, false); bool full = false; for (auto& r : rs) if (r.decisions.size() > 400000) full = true; if (!full) { explicit_schedule(d, rs); if (fails(p, d, e, cls)) best = d; } }
  auto attempt = [&](Case d) { if (now() > until) return false; if (fails(p, d, e, cls)) { best = d; return true; } return false; };
  for (size_t i = 0; i < best.runs.size(); i++) {
    // schedule first: usually most of the preemptions are irrelevant
    { Case d = best; if (d.runs[i].sched == SK_REPLAY && !d.runs[i].decisions.empty()) { d.runs[i].decisions.clear(); attempt(d); } }
    { Case d = best; d.runs[i].fill = 0; if (best.runs[i].fill) attempt(d); }
    { Case d = best; d.runs[i].clock = CK_NORMAL; if (best.runs[i].clock) attempt(d); }
    { Case d = best; d.runs[i].team = 0; if (best.runs[i].team) attempt(d); }
    { Case d = best; d.runs[i].variant = 0; if (best.runs[i].variant) attempt(d); }
    for (size_t k = 0; k < best.runs[i].rand_over.size();) { Case d = best; d.runs[i].rand_over.erase(d.runs[i].rand_over.begin() + k); if (!attempt(d)) k++; }
    for (size_t k = 0; k < best.runs[i].faults.size();) { Case d = best; d.runs[i].faults.erase(d.runs[i].faults.begin() + k); if (!attempt(d)) k++; }
    if (best.runs[i].mode == 0) {
      static const char* drop[] = {"-t", "-l", "-s", "-u", "-m", "-v", "-d"};
      for (auto o : drop) for (size_t k = 0; k + 1 < best.runs[i].argv.size(); k++) if (best.runs[i].argv[k] == o) { Case d = best; d.runs[i].argv.erase(d.runs[i].argv.begin() + k, d.runs[i].argv.begin() + k + 2); attempt(d); break; }
    }
  }
  // input: drop polynomials, then terms (only for single-run text inputs)
  if (best.runs.size() == 1 && best.runs[0].mode == 0 && best.meta.find("noshrink") == best.meta.end()) {
    Sys s; if (parse_sys(first_file(best.runs[0], "in.ms"), s)) {
      auto put = [&](const Sys& t) { Case d = best; for (auto& f : d.runs[0].files) if (f.first == "in.ms") f.second = t.text(); if (attempt(d)) { s = t; return true; } return false; };
      bool ch = true; while (ch && now() < until) { ch = false;
        for (size_t k = 0; k < s.polys.size() && s.polys.size() > 1; ) { Sys t = s; t.polys.erase(t.polys.begin() + k); if (put(t)) ch = true; else k++; }
        for (size_t k = 0; k < s.polys.size(); k++) for (size_t j = 0; j < s.polys[k].size() && s.polys[k].size() > 1;) { Sys t = s; t.polys[k].erase(t.polys[k].begin() + j); if (put(t)) ch = true; else j++; }
      }
    }
  }
  for (size_t i = 0; i < best.runs.size(); i++) if (best.runs[i].sched == SK_REPLAY) {
    size_t n = 2;
    while (best.runs[i].decisions.size() >= 1 && now() < until) {
      size_t L = best.runs[i].decisions.size(), ch = (L + n - 1) / n; bool red = false;
      for (size_t k = 0; k < L && now() < until; k += ch) { Case d = best; auto& v = d.runs[i].decisions; v.erase(v.begin() + k, v.begin() + std::min(L, k + ch)); if (attempt(d)) { red = true; n = std::max<size_t>(2, n - 1); break; } }
      if (!red) { if (ch <= 1) break; n = std::min(L, n * 2); }
    }
  }
  return best;
}

// --------------------------------------------------------------- known findings
struct Known { string prop, cls, match, text, file; double max_rate = 1; };
static vector<Known> load_known(const string& path) {
  vector<Known> k; std::ifstream f(path); string l;
  while (std::getline(f, l)) { if (l.compare(0, 6, "known:")) continue; Known x; std::stringstream s(l.substr(6)); string t; while (std::getline(s, t, '|')) { size_t a = t.find_first_not_of(' '), b = t.find_last_not_of(' '); if (a == string::npos) continue; t = t.substr(a, b - a + 1); if (!t.compare(0, 9, "property=")) x.prop = t.substr(9); else if (!t.compare(0, 4, "cls=")) x.cls = t.substr(4); else if (!t.compare(0, 6, "match=")) x.match = t.substr(6); else if (!t.compare(0, 5, "text=")) x.text = t.substr(5); else if (!t.compare(0, 5, "case=")) x.file = t.substr(5); else if (!t.compare(0, 9, "max_rate=")) x.max_rate = atof(t.c_str() + 9); } k.push_back(x); }
  return k;
}
static const Known* is_known(const vector<Known>& ks, const string& id, const string& cls, const string& msg) { for (auto& k : ks) if (k.prop == id && k.cls == cls && (k.match.empty() || msg.find(k.match) != string::npos)) return &k; return nullptr; }

// --------------------------------------------------------------- check
static string jesc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static string sample_json(const Case& c, const vector<Result>& rs) {
  string o = "{\"case_seed\": " + std::to_string(c.seed) + ", \"runs\": [";
  for (size_t i = 0; i < c.runs.size() && i < 2; i++) { const Scenario& s = c.runs[i]; string a; for (auto& x : s.argv) a += (a.empty() ? "" : " ") + x; string f; for (auto& x : s.faults) f += (f.empty() ? "" : ", ") + string(fault_names[x.kind]) + "@" + std::to_string(x.at);
    o += (i ? ", " : "") + string("{\"args\": \"") + jesc(a.substr(0, 600)) + "\", \"input\": \"" + jesc(first_file(s, "in.ms").substr(0, 400)) + "\", \"scheduler\": \"" + sched_names[s.sched] + "\", \"clock\": \"" + clock_names[s.clock] + "\", \"faults\": \"" + f + "\", \"end\": \"" + jesc(rs[i].brief()) + "\"}"; }
  return o + "]}";
}
static int do_check(int argc, char** argv) {
  string id, tier = "quick", verif = "/verif", tmp; u64 seed = 1; int workers = 8; double wall = 0; u64 ncases = 0; bool detonly = false, keep = false, nodet = false;
  for (int i = 2; i < argc; i++) { string a = argv[i]; auto v = [&]() { return string(argv[++i]); };
    if (a == "--property") id = v(); else if (a == "--tier") tier = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--workers") workers = atoi(v().c_str()); else if (a == "--wall") wall = atof(v().c_str()); else if (a == "--cases") ncases = strtoull(v().c_str(), 0, 10); else if (a == "--verif") verif = v(); else if (a == "--keep-going") keep = true; }
  const Prop* p = find_prop(id); if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
  if (!ncases) ncases = tier == "thorough" ? p->thorough : p->quick;
  if (!wall) wall = tier == "thorough" ? 1500 : 150;
  double t0 = now();
  G = (Agg*)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  G->ncases = ncases; G->deadline = t0 + wall;
  char td[] = "/tmp/msim.XXXXXX"; tmp = mkdtemp(td);
  vector<Known> known = load_known(verif + "/known_findings.txt");
  printf("property=%s tier=%s VERIF_SEED=%lu cases=%lu workers=%d\n", id.c_str(), tier.c_str(), (unsigned long)seed, (unsigned long)ncases, workers); fflush(stdout);
  int nknown = 0;
  { Env e = mkenv(); for (auto& k : known) if (k.prop == id) { Case c; if (!c.parse(slurp(verif + "/" + k.file))) { fprintf(stderr, "ERROR: cannot read pinned case %s\n", k.file.c_str()); return 3; } auto rs = exec_case(c, e, false); Verdict v = p->judge(c, rs, e); if (v.bad && is_known(known, id, v.cls, v.msg) == &k) { printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str()); nknown++; } else printf("note: the pinned case of a listed finding no longer shows it: %s\n", k.text.c_str()); }
    e.z[0]->stop(); e.z[1]->stop(); fflush(stdout); }
  vector<pid_t> ws;
  for (int w = 0; w < workers; w++) {
    pid_t q = fork();
    if (q == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Env e = mkenv();
      for (;;) {
        if (G->stop || now() > G->deadline) break;
        u64 i = __sync_fetch_and_add(&G->next, 1); if (i >= G->ncases) break;
        Case c; u64 cs = hmix(hmix(0x5eed, seed), i);
        if (!gen_case(p, cs, e, c)) continue;
        auto rs = exec_case(c, e, true); add(G->cases, 1);
        Verdict v = p->judge(c, rs, e);
        if (!v.bad && i % 16 == 0) { // determinism self-check: the same case again must give the same history
          add(G->detcheck, 1); auto r2 = exec_case(c, e, false); if (case_hash(rs) != case_hash(r2)) { add(G->detfail, 1); spit(tmp + "/det-" + std::to_string(i), c.ser()); } }
        if (i < 3) spit(tmp + "/sample-" + std::to_string(i), sample_json(c, rs));
        if (v.bad) {
          const Known* kn = is_known(known, id, v.cls, v.msg); bool write = true;
          if (kn) { u64 n = __sync_fetch_and_add(&G->known[kn - &known[0]], 1); write = n == 0; }
          if (write) {
            c.meta["cls"] = v.cls; c.meta["msg"] = v.msg; c.meta["run"] = std::to_string(v.run); if (kn) c.meta["known"] = "1";
            spit(tmp + "/viol-" + std::to_string(i) + ".tmp", c.ser()); rename((tmp + "/viol-" + std::to_string(i) + ".tmp").c_str(), (tmp + "/viol-" + std::to_string(i)).c_str());
          }
          if (!kn) { add(G->viol, 1); if (!keep || G->viol > 400) G->stop = 1; }
        }
      }
      e.z[0]->stop(); e.z[1]->stop(); _exit(0);
    }
    ws.push_back(q);
  }
  for (pid_t q : ws) { int st; waitpid(q, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) add(G->errors, 1); }
  // collect violations in case order
  vector<std::pair<u64, string>> vs; DIR* d = opendir(tmp.c_str()); while (dirent* x = readdir(d)) { string n = x->d_name; if (!n.compare(0, 5, "viol-") && n.find(".tmp") == string::npos) vs.push_back({strtoull(n.c_str() + 5, 0, 10), tmp + "/" + n}); if (!n.compare(0, 4, "det-")) { fprintf(stderr, "NONDETERMINISM in case %s\n", n.c_str()); spit(verif + "/evidence/" + id + "." + n, slurp(tmp + "/" + n)); } } closedir(d);
  std::sort(vs.begin(), vs.end());
  int rc = 0; u64 nviol = 0; std::set<string> shown; vector<string> samples; string replay;
  if (G->detfail || G->errors) { fprintf(stderr, "ERROR: %lu nondeterministic cases, %lu worker errors\n", (unsigned long)G->detfail, (unsigned long)G->errors); rc = 3; }
  if (!vs.empty()) {
    Env e = mkenv();
    std::map<string, int> seen;
    for (auto& x : vs) {
      Case c; if (!c.parse(slurp(x.second))) { fprintf(stderr, "ERROR: cannot parse case\n"); rc = 3; break; }
      string cls = c.meta["cls"], msg = c.meta["msg"]; int run = atoi(c.meta["run"].c_str());
      if (c.meta.count("known")) { const Known* kf = is_known(known, id, cls, msg); u64 n = kf ? G->known[kf - &known[0]] : 0; if (kf && n <= kf->max_rate * G->cases + 6) continue; c.meta["msg"] = msg = "the listed finding is only tolerated in a fraction of the cases, but " + std::to_string(n) + " of " + std::to_string(G->cases) + " cases show it: " + msg; }
      if (keep) { string key = cls + ":" + msg.substr(0, 14); if (seen[key]++ >= 4) continue; string o = verif + "/evidence/" + id + "-" + std::to_string(x.first) + ".case"; spit(o, c.ser()); printf("FOUND #%lu [%s] %s family=%s run=%d -> %s\n", (unsigned long)x.first, cls.c_str(), msg.c_str(), c.meta["family"].c_str(), run, o.c_str()); nviol++; continue; }
      // gate 1: same case twice, same history
      if (!p->multi && c.runs.size() > 1 && run >= 0) { Case d = c; d.runs = {c.runs[run]}; Verdict dv; if (fails(p, d, e, cls, &dv)) { c = d; run = 0; } }
      auto r1 = exec_case(c, e, false); auto r2 = exec_case(c, e, false); Verdict v1 = p->judge(c, r1, e);
      if (case_hash(r1) != case_hash(r2) || !v1.bad) { fprintf(stderr, "ERROR: case %lu does not replay (%d, %s)\n", (unsigned long)x.first, v1.bad, v1.msg.c_str()); rc = 3; spit(verif + "/evidence/" + id + "-flaky.case", c.ser()); continue; }
      cls = v1.cls; run = v1.run < 0 ? 0 : v1.run;
      Case m = minimise(p, c, e, cls, run, now() + 45);
      Verdict mv; auto mr = exec_case(m, e, false); mv = p->judge(m, mr, e);
      if (!mv.bad) { m = c; mr = r1; mv = v1; }
      m.meta["cls"] = mv.cls; m.meta["msg"] = mv.msg; m.meta["hash"] = std::to_string(case_hash(mr));
      mkdir((verif + "/replays").c_str(), 0755);
      replay = verif + "/replays/" + id + "-" + std::to_string(seed) + "-" + std::to_string(x.first) + ".replay";
      size_t nd = 0, nf = 0; for (auto& s : m.runs) { nd += s.decisions.size(); nf += s.faults.size(); }
      string one = mv.msg.substr(0, 300); for (char& ch : one) if ((unsigned char)ch < 32) ch = ' ';
      spit(replay, "# replay: bash /verif/replay.sh FILE   (" + mv.cls + ": " + one + ")\n# seed " + std::to_string(seed) + " case " + std::to_string(x.first) + "; " + std::to_string(m.runs.size()) + " run(s), " + std::to_string(nd) + " context switches, " + std::to_string(nf) + " faults\n" + m.ser());
      // gate 2: fresh process
      string cmd = "'" + g_dir + "/msim-native' replay '" + replay + "' > '" + tmp + "/rep.out' 2>&1"; int st = system(cmd.c_str());
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "ERROR: replay of %s in a fresh process does not reproduce: %s\n", replay.c_str(), slurp(tmp + "/rep.out").c_str()); rc = 3; continue; }
      printf("violation [%s] %s\n  input family=%s, minimised to %zu run(s), %zu context switches, %zu faults\n", mv.cls.c_str(), one.c_str(), c.meta["family"].c_str(), m.runs.size(), nd, nf);
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str()); fflush(stdout); nviol++; rc = 1; break;
    }
    e.z[0]->stop(); e.z[1]->stop();
  }
  double el = now() - t0;
  // evidence
  string ev; char b[4096];
  auto kv = [&](const char* k, u64 v) { snprintf(b, sizeof b, "\"%s\": %lu", k, (unsigned long)v); return string(b); };
  ev = "{\n  \"property\": \"" + id + "\", \"tier\": \"" + tier + "\", \"seed\": " + std::to_string(seed) + ", \"level\": \"exploration\",\n  \"coverage\": {\n    ";
  ev += kv("evaluations", G->runs) + ", " + kv("distinct_nontrivial", G->nontrivial) + ",\n    \"rule\": \"" + jesc(string(p->rule) + " A run is counted once per distinct (input, options, fault list, switch trace) and is nontrivial when at least one scheduler switch, fault, forced draw, short team, non-default clock or non-zero heap fill took effect.") + "\",\n    \"samples\": [";
  { bool f1 = true; for (int k = 0; k < 3; k++) { string q = slurp(tmp + "/sample-" + std::to_string(k)); if (q.empty()) continue; ev += (f1 ? "" : ", ") + q; f1 = false; } }
  ev += "],\n    " + kv("cases", G->cases) + ", " + kv("known_findings_shown", nknown) + ", " + [&] { string o; for (size_t k = 0; k < known.size(); k++) if (known[k].prop == id) o += kv(("tolerated_matches_of_known_" + known[k].cls).c_str(), G->known[k]) + ", "; return o; }() + kv("discarded_too_large_for_reference", G->discards) + ", ";
  snprintf(b, sizeof b, "\"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"simulated_seconds\": %.1f, ", G->runs / el * 3600, G->cases / el * 3600, G->sim_us / 1e6); ev += b;
  ev += kv("simulated_steps", G->steps) + ", " + kv("parallel_steps", G->psteps) + ", " + kv("parallel_regions", G->regions) + ", " + kv("context_switches", G->switches) + ", " + kv("runs_with_interleaving", G->threads_gt1) + ",\n    " + kv("distinct_interleavings", G->distinct_inter) + ", " + kv("distinct_conflicting_access_pairs", G->distinct_conf) + ", " + kv("max_steps_in_a_run", G->maxsteps) + ",\n    \"interleaving_measure\": \"distinct hashes of the full switch trace (fiber, target, program counter)\",\n    \"faults_fired\": {";
  bool first = true; for (int i = 1; i < F_NUM; i++) { ev += (first ? "" : ", ") + kv(fault_names[i], G->fired[i]); first = false; } ev += ", " + kv("short_thread_teams", G->teams_small) + ", " + kv("forced_random_draws", G->rand_forced);
  for (int i = 1; i < CK_NUM; i++) ev += ", " + kv((string("clock_") + clock_names[i] + "_runs").c_str(), G->clock_runs[i]);
  ev += ", " + kv("dirty_heap_runs", G->fill_runs[1] + G->fill_runs[2] + G->fill_runs[3]) + "},\n    \"scheduler_runs\": {";
  for (int i = 0; i < SK_REPLAY; i++) ev += (i ? ", " : "") + kv(sched_names[i], G->sched_runs[i]);
  ev += "},\n    \"build_variants\": {" + kv("native_simd", G->variant_runs[0]) + ", " + kv("scalar", G->variant_runs[1]) + "},\n    \"seam_calls\": {" + kv("reads", G->nread) + ", " + kv("writes", G->nwrite) + ", " + kv("opens", G->nopen) + ", " + kv("allocations", G->nalloc) + ", " + kv("random_draws", G->nrand) + ", " + kv("clock_reads", G->nclock) + "},\n    ";
  ev += kv("determinism_rechecks", G->detcheck) + ", " + kv("determinism_failures", G->detfail) + ",\n    \"real_components\": \"all of src/msolve, src/neogb, src/fglm, src/usolve, src/upolmat, src/crt; GMP, MPFR, FLINT, glibc stdio formatting/parsing\",\n    \"stubbed_components\": \"OpenMP runtime (fibers), thread scheduler, clock, rand/srand, file storage and stdout device, malloc contents/failures, FLINT thread pool (1 thread)\"\n  },\n";
  ev += "  \"assumptions\": [\"sequentially consistent memory: hardware reordering is not simulated\", \"GMP/FLINT/libc calls are atomic with respect to the scheduler\", \"inputs are small enough for the reference model\"],\n";
  snprintf(b, sizeof b, "  \"wall_s\": %.1f, \"violations\": %lu\n}\n", el, (unsigned long)nviol); ev += b;
  mkdir((verif + "/evidence").c_str(), 0755); spit(verif + "/evidence/" + id + ".json", ev);
  printf("runs=%lu cases=%lu discards=%lu interleavings=%lu conflicts=%lu maxsteps=%lu violations=%lu wall=%.1fs\n", (unsigned long)G->runs, (unsigned long)G->cases, (unsigned long)G->discards, (unsigned long)G->distinct_inter, (unsigned long)G->distinct_conf, (unsigned long)G->maxsteps, (unsigned long)nviol, el);
  system(("rm -rf '" + tmp + "'").c_str());
  return rc;
}
static int do_replay(int argc, char** argv) {
  G = (Agg*)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Case c; if (!c.parse(slurp(argv[2]))) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 2; }
  const Prop* p = find_prop(c.prop); if (!p) return 2;
  bool verbose = argc > 3; Env e = mkenv(); auto rs = exec_case(c, e, false);
  Verdict v = p->judge(c, rs, e); u64 h = case_hash(rs);
  for (size_t i = 0; i < rs.size(); i++) { printf("run %zu: %s\n", i, rs[i].brief().c_str()); if (verbose) { printf("  argv:"); for (auto& a : c.runs[i].argv) printf(" %s", a.c_str()); printf("\n  in:\n%s\n", first_file(c.runs[i], "in.ms").c_str()); for (auto& f : rs[i].files) if (f.first != "in.ms") printf("  file %s:\n%s\n", f.first.c_str(), f.second.substr(0, 3000).c_str()); printf("  stdout: %s\n  stderr: %s\n", rs[i].out.substr(0, verbose && string(argv[3]) == "vv" ? 100000 : 2000).c_str(), rs[i].err.substr(0, verbose && string(argv[3]) == "vv" ? 100000 : 1000).c_str()); } }
  e.z[0]->stop(); e.z[1]->stop();
  bool hm = c.meta.count("hash") == 0 || c.meta["hash"] == std::to_string(h);
  printf("hash=%lu %s\n%s\n", (unsigned long)h, hm ? "(as recorded)" : "(DIFFERS from record)", v.bad ? ("REPRODUCED " + v.cls + ": " + v.msg).c_str() : "no violation");
  if (!v.bad) return 0; return hm ? 1 : 4;
}
int main(int argc, char** argv) {
  if (argc >= 5 && string(argv[1]) == "zygote") zygote_main(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MSIM_EXEC")) { setenv("MSIM_EXEC", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  char x[4096]; ssize_t n = readlink("/proc/self/exe", x, sizeof x - 1); x[n] = 0; g_dir = x; g_dir = g_dir.substr(0, g_dir.rfind('/'));
  signal(SIGPIPE, SIG_IGN);
  if (argc >= 3 && string(argv[1]) == "check") return do_check(argc, argv);
  if (argc >= 3 && string(argv[1]) == "replay") return do_replay(argc, argv);
  if (argc >= 4 && string(argv[1]) == "min") { G = (Agg*)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); Case c; if (!c.parse(slurp(argv[2]))) return 2; const Prop* p = find_prop(c.prop); Env e = mkenv(); auto rs = exec_case(c, e, false); Verdict v = p->judge(c, rs, e); if (!v.bad) { printf("no violation\n"); return 0; } Case m = minimise(p, c, e, v.cls, v.run < 0 ? 0 : v.run, now() + 120); m.meta.erase("hash"); spit(argv[3], m.ser()); e.z[0]->stop(); e.z[1]->stop(); return 1; }
  if (argc >= 3 && string(argv[1]) == "ref") { Sys y; if (!parse_sys(slurp(argv[2]), y)) return 2; OpCap cap{100000000}; AQ A; A.o = Order{y.n(), 0};
    if (!y.ch) { RefQ r; ref_qq(y, cap, r, true, 60); for (auto& q : r.gb) printf("gb %s\n", A.str(q, y.vars).c_str()); printf("dim %d D %d distinct %d nreal %d\n", r.dim, r.D, r.distinct, r.nreal); for (auto& q : r.real) { for (auto& c : q) printf(" %.12g", fmpq_get_d(c.first.v)); printf("\n"); } }
    else { RefP r; ref_fp(y, cap, r, 60); printf("dim %d D %d distinct %d\n", r.dim, r.D, r.distinct); } return 0; }
  if (argc >= 6 && string(argv[1]) == "dump") {   // dump ID SEED N DIR: inputs and options of generated cases, for coverage measurements
    G = (Agg*)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); const Prop* p = find_prop(argv[2]); if (!p) return 2; Env e = mkenv();
    for (u64 i = 0; i < strtoull(argv[4], 0, 10); i++) { Case c; if (!gen_case(p, hmix(strtoull(argv[3], 0, 10), i), e, c)) continue;
      for (size_t k = 0; k < c.runs.size(); k++) { auto& s = c.runs[k]; if (s.mode) continue; string d = string(argv[5]) + "/" + argv[2] + "-" + std::to_string(i) + "-" + std::to_string(k); mkdir(d.c_str(), 0755); string a;
        for (auto& x : s.argv) a += x + "\n"; spit(d + "/argv", a); for (auto& f : s.files) spit(d + "/" + f.first, f.second); } }
    e.z[0]->stop(); e.z[1]->stop(); return 0; }
  fprintf(stderr, "usage: msim check --property ID | replay FILE\n"); return 2;
}
