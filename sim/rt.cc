#include "rt.h"
#include <signal.h>
#include <ucontext.h>
extern "C" char etext;
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <algorithm>
#include <unordered_map>
#include <getopt.h>
#include <fcntl.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

const char* sched_names[] = {"seq", "random", "pct", "conflict", "rr", "reverse", "stall", "replay"};
const char* clock_names[] = {"normal", "frozen", "jumpy", "backward", "coarse", "huge"};
const char* fault_names[] = {"none", "open_fail", "read_eio", "read_short", "write_enospc", "write_eio", "write_torn",
  "close_fail", "alloc_fail", "alloc_fail_persist", "crash_step", "crash_write", "write_enospc_once"};

u64 hbytes(const void* p, size_t n, u64 h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

// ------------------------------------------------------------ shared memory
#define REQ_CAP (48u << 20)
#define DEC_CAP (1u << 20)
#define FILE_CAP (16u << 20)
#define MAXF 8
#define OUT_CAP (8u << 20)
#define CONF_CAP 4096
struct ShFile { char name[128]; u64 len; u32 exists; u32 pad; };
struct Shm {
  u64 req_len;
  volatile int end; int code;
  u64 steps, psteps, regions, switches, hash, conflicts, sim_us, nalloc, nread, nwrite, nopen, nclose, nrand, nclock, teams_small, rand_forced;
  u64 fired[F_NUM]; u64 switch_hash; u64 rand_first[8];
  u64 ndec, nconf; u64 conf[CONF_CAP];
  u32 nfiles; ShFile files[MAXF];
  u64 outlen, errlen;
  Decision dec[DEC_CAP];
  char out[OUT_CAP]; char err[1u << 20];
  char fdata[MAXF][FILE_CAP];
  char req[REQ_CAP];
};
static Shm* S;          // in the simulated process
static Scenario* C;
static bool g_live = false;   // simulation running

// ------------------------------------------------------------ run end
static void sim_finish(int end, int code) __attribute__((noreturn));
struct Fiber; static Fiber* cur;
static void flush_counters();
static void sim_finish(int end, int code) {
  flush_counters();
  S->code = code; __sync_synchronize(); S->end = end;
  _exit(0);
}

// ------------------------------------------------------------ fibers
extern "C" void sim_swtch(void** save, void* to);
__asm__(
".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size sim_swtch,.-sim_swtch\n");

struct WS { long next, end, incr, chunk; bool init = false; u64 unext, uend, uincr; bool up; int left = 0; bool single_taken = false; int ordered_next = 0; u64 last; int kind; std::vector<unsigned> secs; unsigned nsec=0, sec=0; void* copypriv=nullptr; };
struct Task { void (*fn)(void*); void* arg; void* mem; Fiber* parent; };
struct Team { int n; std::vector<WS*> ws; int bar_count = 0; u64 bar_gen = 0; int done = 0; std::vector<Task> tasks; int tasks_running = 0; Team* up = nullptr; };
enum FS { FS_RUN, FS_BLOCK_BAR, FS_BLOCK_CRIT, FS_DONE, FS_BLOCK_JOIN, FS_BLOCK_TASK };
struct Fiber {
  void* sp = nullptr; char* stk = nullptr; int id = 0; FS st = FS_RUN;
  Team* team = nullptr; int tid = 0; int level = 0; u32 wsidx = 0;
  void (*fn)(void*) = nullptr; void* arg = nullptr;
  u64 local = 0, next = ~0ULL; u64 prio = 0; void* crit = nullptr; u64 bargen = 0; int children = 0; u64 nblock = 0;
  size_t rp = 0; std::vector<Decision> rlist;   // replay
};
static Fiber mainf; 
static std::vector<Fiber*> pool;      // fibers 1..n-1 by id
static std::vector<Fiber*> act;       // active fibers of the outermost team (index == id)
static i64 g_fuel = 0; static u64 g_fuel0 = 0;
static bool g_par = false;
static u64 g_psteps = 0; static u32 g_region = 0;
static Rng g_srng, g_trng, g_crng, g_rrng, g_frng;
static const size_t FSTK = 16u << 20;
static char* stack_new(size_t n) {
  char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
  mprotect(p, 4096, PROT_NONE);
  return p;
}
static void* mkstack(char* stk, size_t n, void (*entry)()) {
  u64* sp = (u64*)(stk + n - 64);
  *--sp = 0;                   // fake return address (alignment)
  *--sp = (u64)entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp; u32 mx; unsigned short cw; __asm__("stmxcsr %0" : "=m"(mx)); __asm__("fnstcw %0" : "=m"(cw));
  ((u32*)sp)[0] = mx; ((u32*)sp)[1] = cw;
  return sp;
}

// sched state
static std::vector<u64> pct_points; static size_t pct_i;
static u64 hot[1024]; // bloom-ish table of hot pcs
static inline bool is_hot(u64 pc) { return hot[(pc * 0x9E3779B97F4A7C15ULL) >> 54] == pc; }
static inline void set_hot(u64 pc) { hot[(pc * 0x9E3779B97F4A7C15ULL) >> 54] = pc; }
struct Sh { u64 addr; u32 region; u16 fiber; u16 w; u64 pc; };
static Sh* shadow; static const u32 SHN = 1u << 16;
static u64 g_stall_victim;

static void ev(u64 a, u64 b) { S->hash = hmix(S->hash, hmix(a, b)); }

static void switch_to(Fiber* f) {
  if (f == cur) return;
  Fiber* o = cur; cur = f; S->switches++;
  sim_swtch(&o->sp, f->sp);
}
static bool runnable(Fiber* f) {
  switch (f->st) {
    case FS_RUN: return true;
    case FS_BLOCK_BAR: return f->team->bar_gen != f->bargen || !f->team->tasks.empty();
    case FS_BLOCK_CRIT: return *(void**)f->crit == nullptr;
    case FS_BLOCK_JOIN: return f->team->done == f->team->n || !f->team->tasks.empty();
    case FS_BLOCK_TASK: return f->children == 0 || !f->team->tasks.empty();
    case FS_DONE: return false;
  }
  return false;
}
static u64 new_gap() { u64 g = C->sched_gap ? C->sched_gap : 1; return 1 + g_srng.below(2 * g); }
static void set_next(Fiber* f) {
  switch (C->sched) {
    case SK_RANDOM: case SK_CONFLICT: f->next = f->local + new_gap(); break;
    case SK_RR: f->next = f->local + C->sched_gap; break;
    case SK_REPLAY: {
      while (f->rp < f->rlist.size() && (f->rlist[f->rp].local > (1ULL << 62) || f->rlist[f->rp].local <= f->local)) f->rp++;
      f->next = f->rp < f->rlist.size() ? f->rlist[f->rp].local : ~0ULL; break;
    }
    default: f->next = ~0ULL;
  }
}
static const u64 DEC_RESERVE = 200000;
static void record(Fiber* f, u64 local, Fiber* t, u64 pc) {
  if (S->ndec < DEC_CAP) { Decision& d = S->dec[S->ndec++]; d.region = g_region; d.fiber = f->id; d.local = local; d.target = t->id; }
  S->switch_hash = hmix(S->switch_hash, hmix((u64)f->id << 32 | t->id, pc ? pc : local));
  ev(0x51, ((u64)f->id << 40) ^ ((u64)t->id << 20) ^ local);
}
// choose among runnable fibers (including cur if cur_ok)
static Fiber* choose(Fiber* me, bool me_ok, bool blocking) {
  static std::vector<Fiber*> r; r.clear();
  for (Fiber* f : act) if ((f != me || me_ok) && runnable(f)) r.push_back(f);
  if (r.empty()) return nullptr;
  if (r.size() == 1) return r[0];
  switch (C->sched) {
    case SK_RANDOM: case SK_CONFLICT: return r[g_srng.below(r.size())];
    case SK_PCT: { Fiber* b = r[0]; for (Fiber* f : r) if (f->prio > b->prio) b = f; return b; }
    case SK_RR: { for (Fiber* f : r) if (f->id > me->id) return f; return r[0]; }
    case SK_REVERSE: return r.back();
    case SK_STALL: { for (Fiber* f : r) if ((u64)f->id != g_stall_victim) return f; return r[0]; }
    default: return r[0];
  }
}
static void preempt(Fiber* f, u64 pc) {
  Fiber* t = nullptr;
  // the recorded trace is bounded: past the bound threads run until they block
  if (S->ndec >= DEC_CAP - DEC_RESERVE && C->sched != SK_REPLAY) { f->next = ~0ULL; return; }
  if (C->sched == SK_REPLAY) {
    if (f->rp < f->rlist.size() && f->rlist[f->rp].local == f->local) {
      u32 tg = f->rlist[f->rp].target; f->rp++;
      if (tg < act.size() && runnable(act[tg])) t = act[tg];
    }
    set_next(f);
  } else {
    t = choose(f, C->sched != SK_RR, false);
    set_next(f);
  }
  if (!t || t == f) return;
  record(f, f->local, t, pc);
  switch_to(t);
}
// me cannot continue: pick someone else; returns when me is runnable and chosen again
static void block(Fiber* me) {
  bool self = runnable(me);
  Fiber* t = nullptr; u64 k = ~0ULL - (me->nblock++);
  if (C->sched == SK_REPLAY || S->ndec >= DEC_CAP) {
    for (auto& d : me->rlist) if (d.local == k) { if (d.target < act.size() && runnable(act[d.target])) t = act[d.target]; break; }
    if (!t) for (Fiber* f : act) if (f != me && runnable(f)) { t = f; break; }
    if (!t && self) return;
  } else t = choose(me, self, true);
  if (!t) { S->hash = hmix(S->hash, 0xdead); sim_finish(E_DEADLOCK, 0); }
  if (t == me) return;
  record(me, k, t, 0);
  switch_to(t);
}
static void fuel_out() { sim_finish(E_FUEL, 0); }

static __attribute__((noinline)) void par_access(void* a, int w, u64 pc) {
  if (unlikely(--g_fuel < 0)) fuel_out();
  Fiber* f = cur; f->local++; g_psteps++;
  bool pre = f->local >= f->next;
  Sh& s = shadow[((u64)a >> 3) * 0x9E3779B97F4A7C15ULL >> 48];
  if (s.addr == (u64)a && s.region == g_region) {
    if (s.fiber != f->id && (s.w || w)) {
      S->conflicts++;
      if (!is_hot(pc)) set_hot(pc);
      if (!is_hot(s.pc)) set_hot(s.pc);
      if (S->nconf < CONF_CAP) { u64 h = hmix(s.pc, pc); bool seen = false; for (u64 i = S->nconf > 64 ? S->nconf - 64 : 0; i < S->nconf; i++) if (S->conf[i] == h) { seen = true; break; } if (!seen) S->conf[S->nconf++] = h; }
    }
    s.fiber = f->id; s.w = (u16)(s.w | w); s.pc = pc;
  } else { s.addr = (u64)a; s.region = g_region; s.fiber = f->id; s.w = w; s.pc = pc; }
  if (C->sched == SK_CONFLICT) { if (!pre && is_hot(pc) && g_srng.chance(1, 3)) pre = true; }
  else if (C->sched == SK_PCT) {
    if (pct_i < pct_points.size() && g_psteps >= pct_points[pct_i]) { pct_i++; f->prio = pct_points.size() - pct_i; pre = true; }
  }
  if (unlikely(pre)) preempt(f, pc);
}
static inline void hook(void* a, int w, void* pc) {
  if (likely(!g_par)) { if (unlikely(--g_fuel < 0)) { if (g_live) fuel_out(); else g_fuel = 1LL << 60; } return; }
  par_access(a, w, (u64)pc);
}
static __attribute__((noinline)) void sync_point(void* a, void* pc) {
  if (!g_par) { if (--g_fuel < 0 && g_live) fuel_out(); return; }
  par_access(a, 1, (u64)pc);
  Fiber* f = cur;
  if (C->sched == SK_CONFLICT || C->sched == SK_RANDOM) { f->local++; if (g_srng.chance(1, 4)) preempt(f, (u64)pc); }
  else { f->local++; if (C->sched == SK_REPLAY && f->local >= f->next) preempt(f, (u64)pc); }
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (unlikely(--g_fuel < 0)) { if (g_live) fuel_out(); else g_fuel = 1LL << 60; } }
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { hook(a, 0, RA); } void __tsan_write##n(void* a) { hook(a, 1, RA); } \
  void __tsan_unaligned_read##n(void* a) { hook(a, 0, RA); } void __tsan_unaligned_write##n(void* a) { hook(a, 1, RA); } \
  void __tsan_volatile_read##n(void* a) { hook(a, 0, RA); } void __tsan_volatile_write##n(void* a) { hook(a, 1, RA); } \
  void __tsan_unaligned_volatile_read##n(void* a) { hook(a, 0, RA); } void __tsan_unaligned_volatile_write##n(void* a) { hook(a, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { hook(a, 0, RA); if (n > 8 && g_par) par_access((char*)a + 8, 0, (u64)RA); }
void __tsan_write_range(void* a, size_t n) { hook(a, 1, RA); if (n > 8 && g_par) par_access((char*)a + 8, 1, (u64)RA); }
void __tsan_vptr_update(void** a, void*) { hook(a, 1, RA); }
void __tsan_vptr_read(void** a) { hook(a, 0, RA); }
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { sync_point((void*)a, RA); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sync_point((void*)a, RA); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { sync_point((void*)a, RA); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sync_point((void*)a, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sync_point((void*)a, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync_point((void*)a, RA); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sync_point(nullptr, RA); }
void __tsan_atomic_signal_fence(int) {}
// libc memory functions of msolve: preemption points, then the real thing
void* sim_memcpy(void* d, const void* s, size_t n) { if (g_par && n) { par_access((void*)s, 0, (u64)RA); par_access(d, 1, (u64)RA); } return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if (g_par && n) { par_access((void*)s, 0, (u64)RA); par_access(d, 1, (u64)RA); } return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if (g_par && n) { par_access(d, 1, (u64)RA); if (n > 8) par_access((char*)d + 8, 1, (u64)RA); } return memset(d, c, n); }
void* sim_memcpy_chk(void* d, const void* s, size_t n, size_t m) { if (n > m) abort(); return sim_memcpy(d, s, n); }
void* sim_memmove_chk(void* d, const void* s, size_t n, size_t m) { if (n > m) abort(); return sim_memmove(d, s, n); }
void* sim_memset_chk(void* d, int c, size_t n, size_t m) { if (n > m) abort(); return sim_memset(d, c, n); }

// ------------------------------------------------------------ OpenMP
static int g_omp_threads = 8;
static Team* solo_team() { Team* t = new Team; t->n = 1; return t; }
static void run_tasks(Fiber* me, Team* t) {
  while (!t->tasks.empty()) {
    size_t i = C->sched == SK_RANDOM || C->sched == SK_CONFLICT ? g_srng.below(t->tasks.size()) : 0;
    Task k = t->tasks[i]; t->tasks.erase(t->tasks.begin() + i); t->tasks_running++;
    int sc = me->children; me->children = 0;
    k.fn(k.arg);
    me->children = sc; t->tasks_running--; if (k.parent) k.parent->children--;
    free(k.mem);
  }
}
static void fiber_main() {
  Fiber* me = cur;
  for (;;) {
    me->fn(me->arg);
    run_tasks(me, me->team);
    me->st = FS_DONE; me->team->done++;
    block(me);
  }
}
static void sim_parallel(void (*fn)(void*), void* data, unsigned nt, WS* ws0) {
  Fiber* me = cur;
  int n = nt ? (int)nt : g_omp_threads;
  if (me->level > 0) n = 1;
  if (n > 64) n = 64;
  if (n > 1 && C->team == 1) { int m = (int)g_trng.range(1, n); if (m < n) { S->teams_small++; n = m; } }
  Team* t = new Team; t->n = n; t->up = me->team;
  if (ws0) t->ws.push_back(ws0);
  Team* ot = me->team; int otid = me->tid; u32 ows = me->wsidx;
  me->team = t; me->tid = 0; me->wsidx = ws0 ? 1 : 0; me->level++;
  if (n == 1) {
    fn(data);
    run_tasks(me, t);
  } else {
    S->regions++; g_region++;
    act.clear(); act.push_back(me);
    me->id = 0; me->st = FS_RUN; me->local = 0; me->nblock = 0;
    while ((int)pool.size() < n - 1) { Fiber* f = new Fiber; f->id = (int)pool.size() + 1; f->stk = stack_new(FSTK); pool.push_back(f); }
    for (int i = 1; i < n; i++) {
      Fiber* f = pool[i - 1]; f->st = FS_RUN; f->team = t; f->tid = i; f->level = 1; f->wsidx = ws0 ? 1 : 0; f->fn = fn; f->arg = data;
      f->local = 0; f->nblock = 0; f->children = 0; f->sp = mkstack(f->stk, FSTK, fiber_main); f->id = i;
      act.push_back(f);
    }
    if (C->sched == SK_REPLAY) {
      for (Fiber* f : act) { f->rlist.clear(); f->rp = 0; }
      for (auto& d : C->decisions) if (d.region == g_region && d.fiber < act.size()) act[d.fiber]->rlist.push_back(d);
    }
    if (C->sched == SK_PCT) for (Fiber* f : act) f->prio = 1000 + g_srng.below(1000000);
    if (C->sched == SK_STALL) g_stall_victim = g_srng.below(n);
    for (Fiber* f : act) set_next(f);
    ev(0x9a, n);
    g_par = true;
    // initial choice: who runs first (recorded as fiber 0's first blocking choice)
    block(me);
    fn(data);
    run_tasks(me, t);
    t->done++;
    me->st = FS_BLOCK_JOIN;
    while (t->done != t->n || !t->tasks.empty()) { if (!t->tasks.empty()) { me->st = FS_RUN; run_tasks(me, t); me->st = FS_BLOCK_JOIN; } else block(me); }
    me->st = FS_RUN;
    g_par = false;
    act.clear();
  }
  me->team = ot; me->tid = otid; me->wsidx = ows; me->level--;
  for (WS* w : t->ws) delete w;
  delete t;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { sim_parallel(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { sim_parallel(fn, data, nt, nullptr); return nt; }
int omp_get_thread_num(void) { return cur && cur->team ? cur->tid : 0; }
int omp_get_num_threads(void) { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads(void) { return g_omp_threads; }
void omp_set_num_threads(int n) { if (n > 0) g_omp_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return cur && cur->team && cur->team->n > 1; }
int omp_get_level(void) { return cur ? cur->level : 0; }
int omp_get_thread_limit(void) { return 64; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtick(void) { return 1e-6; }
static WS* get_ws(bool* first) {
  Fiber* f = cur; if (!f->team) f->team = solo_team();
  Team* t = f->team; u32 i = f->wsidx++;
  *first = i >= t->ws.size();
  while (t->ws.size() <= i) t->ws.push_back(new WS);
  return t->ws[i];
}
static WS* cur_ws() { return cur->team->ws[cur->wsidx - 1]; }
static bool loop_next(WS* w, long* is, long* ie) {
  sync_point(w, RA);
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long step = w->incr * w->chunk; *is = w->next;
  long e = w->next + step; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *ie = e; w->next = e; return true;
}
static bool loop_next_u(WS* w, u64* is, u64* ie) {
  sync_point(w, RA);
  if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
  *is = w->unext; u64 step = w->uincr * (u64)w->chunk; u64 e;
  if (w->up) { e = w->unext + step; if (e > w->uend || e < w->unext) e = w->uend; }
  else { e = w->unext + step; if (e < w->uend || e > w->unext) e = w->uend; }
  *ie = e; w->unext = e; return true;
}
static void ws_init(WS* w, long s, long e, long inc, long ch) { w->next = s; w->end = e; w->incr = inc; w->chunk = ch > 0 ? ch : 1; w->init = true; }
static bool loop_start(long s, long e, long inc, long ch, long* is, long* ie) { bool f; WS* w = get_ws(&f); if (f) ws_init(w, s, e, inc, ch); return loop_next(w, is, ie); }
static bool loop_start_u(bool up, u64 s, u64 e, u64 inc, u64 ch, u64* is, u64* ie) { bool f; WS* w = get_ws(&f); if (f) { w->up = up; w->unext = s; w->uend = e; w->uincr = inc; w->chunk = ch ? (long)ch : 1; w->init = true; } return loop_next_u(w, is, ie); }
#define LOOPV(k) \
bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); } \
bool GOMP_loop_##k##_next(long* is, long* ie) { return loop_next(cur_ws(), is, ie); } \
bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start_u(up, s, e, i, c, (u64*)is, (u64*)ie); } \
bool GOMP_loop_ull_##k##_next(unsigned long long* is, unsigned long long* ie) { return loop_next_u(cur_ws(), (u64*)is, (u64*)ie); } \
void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { WS* w = new WS; ws_init(w, s, e, i, c); sim_parallel(fn, d, nt, w); }
LOOPV(dynamic) LOOPV(guided) LOOPV(nonmonotonic_dynamic) LOOPV(nonmonotonic_guided) LOOPV(static)
#define LOOPR(k) \
bool GOMP_loop_##k##_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); } \
bool GOMP_loop_##k##_next(long* is, long* ie) { return loop_next(cur_ws(), is, ie); } \
void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { WS* w = new WS; ws_init(w, s, e, i, 1); sim_parallel(fn, d, nt, w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
static void barrier() {
  Fiber* me = cur; Team* t = me->team; if (!t || t->n == 1) { if (t) run_tasks(me, t); return; }
  run_tasks(me, t);
  u64 g = t->bar_gen;
  if (++t->bar_count == t->n) { t->bar_count = 0; t->bar_gen++; me->local++; sync_point(t, RA); return; }
  me->bargen = g; me->st = FS_BLOCK_BAR;
  while (t->bar_gen == g) { block(me); if (!t->tasks.empty()) { me->st = FS_RUN; run_tasks(me, t); me->st = FS_BLOCK_BAR; } }
  me->st = FS_RUN;
}
void GOMP_barrier(void) { barrier(); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start(void) { bool f; WS* w = get_ws(&f); sync_point(w, RA); if (!w->single_taken) { w->single_taken = true; return true; } return false; }
void* GOMP_single_copy_start(void) { bool f; WS* w = get_ws(&f); sync_point(w, RA); if (!w->single_taken) { w->single_taken = true; return nullptr; } barrier(); return w->copypriv; }
void GOMP_single_copy_end(void* d) { cur_ws()->copypriv = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { bool f; WS* w = get_ws(&f); if (f) { w->nsec = n; w->sec = 0; } sync_point(w, RA); return w->sec < w->nsec ? ++w->sec : 0; }
unsigned GOMP_sections_next(void) { WS* w = cur_ws(); sync_point(w, RA); return w->sec < w->nsec ? ++w->sec : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned cnt, unsigned) { WS* w = new WS; w->nsec = cnt; sim_parallel(fn, d, nt, w); }
static void lock(void** l) {
  sync_point(l, RA);
  Fiber* me = cur;
  if (g_par) { while (*l) { me->st = FS_BLOCK_CRIT; me->crit = l; block(me); me->st = FS_RUN; } }
  *l = (void*)(u64)(me->id + 1);
}
static void unlock(void** l) { *l = nullptr; sync_point(l, RA); }
static void* g_crit, *g_atom;
void GOMP_critical_start(void) { lock(&g_crit); }
void GOMP_critical_end(void) { unlock(&g_crit); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&g_atom); }
void GOMP_atomic_end(void) { unlock(&g_atom); }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
typedef struct { void* p; } olock;
void omp_init_lock(olock* l) { l->p = nullptr; } void omp_destroy_lock(olock*) {}
void omp_set_lock(olock* l) { lock(&l->p); } void omp_unset_lock(olock* l) { unlock(&l->p); }
int omp_test_lock(olock* l) { sync_point(l, RA); if (l->p) return 0; l->p = (void*)1; return 1; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned, void**, int) {
  Fiber* me = cur;
  char* mem = (char*)malloc(sz + al + 16); char* a = (char*)(((u64)mem + al) & ~(u64)(al > 0 ? al - 1 : 0)); if (al <= 1) a = mem;
  if (cpy) cpy(a, data); else memcpy(a, data, sz);
  if (!ifc || !me->team || me->team->n == 1) { fn(a); free(mem); return; }
  Task t; t.fn = fn; t.arg = a; t.mem = mem; t.parent = me; me->children++;
  me->team->tasks.push_back(t);
  sync_point(me->team, RA);
}
void GOMP_taskwait(void) {
  Fiber* me = cur; if (!me->team) return; Team* t = me->team;
  while (me->children > 0) { run_tasks(me, t); if (me->children > 0) { me->st = FS_BLOCK_TASK; block(me); me->st = FS_RUN; } }
}
void GOMP_taskyield(void) { if (g_par) sync_point(nullptr, RA); }
void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) { GOMP_taskwait(); }

// ------------------------------------------------------------ clock
static i64 g_now_us = 1700000000LL * 1000000; static i64 g_now0;
static void tick() {
  S->nclock++;
  i64 d;
  switch (C->clock) {
    case CK_FROZEN: d = 0; break;
    case CK_JUMPY: d = g_crng.chance(1, 5) ? (i64)g_crng.below(3600LL * 1000000) : (i64)g_crng.below(50); break;
    case CK_BACKWARD: d = g_crng.chance(1, 4) ? -(i64)g_crng.below(5 * 1000000) : (i64)g_crng.below(2000); break;
    case CK_COARSE: d = g_crng.chance(1, 50) ? 1000000 : 0; break;
    case CK_HUGE: d = (i64)g_crng.below(86400LL * 1000000); break;
    default: d = 1 + (i64)g_crng.below(3000); break;
  }
  g_now_us += d; if (g_now_us < 1000000) g_now_us = 1000000;
  if (d > 0) S->sim_us += d;
}
time_t sim_time(time_t* t) { tick(); time_t r = g_now_us / 1000000; if (t) *t = r; return r; }
int sim_gettimeofday(struct timeval* tv, void*) { tick(); tv->tv_sec = g_now_us / 1000000; tv->tv_usec = g_now_us % 1000000; return 0; }
long sim_clock(void) { tick(); return (long)(g_now_us - g_now0); }
int sim_clock_gettime(int, struct timespec* ts) { tick(); ts->tv_sec = g_now_us / 1000000; ts->tv_nsec = (g_now_us % 1000000) * 1000; return 0; }
double omp_get_wtime(void) { tick(); return g_now_us * 1e-6; }
// ------------------------------------------------------------ randomness
static u64 rand_mix = 0;
static u64 g_rand_pos = 0; static bool g_rand_ov = true, g_seeded = false; static unsigned g_seed0;
int sim_rand(void) {
  u64 i = S->nrand++;
  u32 v = (u32)(g_rrng.next() & 0x7fffffff);
  if (g_rand_ov) for (auto& o : C->rand_over) if (o.first == g_rand_pos) { v = o.second; S->rand_forced++; }
  g_rand_pos++;
  if (i < 8) S->rand_first[i] = v;
  return (int)v;
}
// as in libc the stream is a function of the last seed: the same seed gives the same draws again
void sim_srand(unsigned x) { g_rrng = Rng(hmix(C->rand_seed ^ 0x4a4d, x)); g_rand_pos = 0; if (!g_seeded) { g_seeded = true; g_seed0 = x; } g_rand_ov = x == g_seed0; }
void sim_srandom(unsigned x) { sim_srand(x); }
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned*) { return sim_rand(); }
double sim_drand48(void) { return sim_rand() / 2147483648.0; }
// ------------------------------------------------------------ heap
static bool alloc_fails() {
  u64 i = S->nalloc++;
  for (auto& f : C->faults) {
    if (f.kind == F_ALLOC_FAIL && i == f.at) { if (getenv("MSIM_ABT")) raise(SIGABRT); S->fired[f.kind]++; return true; }
    if (f.kind == F_ALLOC_FAIL_PERSIST && i >= f.at) { S->fired[f.kind]++; return true; }
  }
  return false;
}
static void fillmem(void* p, size_t n) {
  if (n > (1u << 22)) n = 1u << 22;
  switch (C->fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xA5, n); break;
    case 3: memset(p, 0xFF, n); break;
    default: { u64* q = (u64*)p; size_t k = n / 8; for (size_t i = 0; i < k; i++) q[i] = g_frng.next(); for (size_t i = k * 8; i < n; i++) ((char*)p)[i] = (char)g_frng.next(); }
  }
}
void* sim_malloc(size_t n) { if (!g_live) return malloc(n); if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = malloc(n); if (p) fillmem(p, n); return p; }
void* sim_calloc(size_t a, size_t b) { if (!g_live) return calloc(a, b); if (alloc_fails()) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
void* sim_realloc(void* p, size_t n) {
  if (!g_live) return realloc(p, n);
  if (n && (!p || n > malloc_usable_size(p)) && alloc_fails()) { errno = ENOMEM; return nullptr; } // shrinking a block never fails
  // The old block is copied into a fresh filled block so that the tail is defined
  if (!p) { void* q = malloc(n); if (q) fillmem(q, n); return q; }
  size_t o = malloc_usable_size(p);
  void* q = realloc(p, n);
  if (q && n > o) fillmem((char*)q + o, n - o);
  return q;
}
int sim_posix_memalign(void** p, size_t a, size_t n) { if (g_live && alloc_fails()) return ENOMEM; int r = posix_memalign(p, a, n); if (!r && g_live) fillmem(*p, n); return r; }
void* sim_aligned_alloc(size_t a, size_t n) { void* p = nullptr; return sim_posix_memalign(&p, a < 8 ? 8 : a, n) ? nullptr : p; }
void sim_free(void* p) { if (p && g_live && C->fill != 0) { size_t n = malloc_usable_size(p); if (n > 4096) n = 4096; memset(p, 0xDD, n); } free(p); }
void sim_flint_set_num_threads(int) {}

// ------------------------------------------------------------ files
struct Ck { int f; u64 pos; bool app, rd, wr; FILE* fp; };
static std::vector<Ck*> g_open;
static int find_file(const char* n, bool create) {
  for (u32 i = 0; i < S->nfiles; i++) if (!strcmp(S->files[i].name, n)) { if (S->files[i].exists || create) { S->files[i].exists = 1; return i; } return -1; }
  if (!create || S->nfiles >= MAXF) return -1;
  ShFile& f = S->files[S->nfiles]; strncpy(f.name, n, 127); f.len = 0; f.exists = 1; return S->nfiles++;
}
static bool fault_at(int kind, u64 i, u64* arg) {
  for (auto& f : C->faults) if (f.kind == kind && f.at == i) { S->fired[kind]++; if (arg) *arg = f.arg; return true; }
  return false;
}
static bool fault_from(int kind, u64 i) {
  for (auto& f : C->faults) if (f.kind == kind && i >= f.at) { S->fired[kind]++; return true; }
  return false;
}
static ssize_t ck_read(void* c, char* buf, size_t n) {
  Ck* k = (Ck*)c; u64 i = S->nread++; u64 arg = 0;
  ev(0x70, i);
  if (fault_at(F_READ_EIO, i, &arg)) { errno = EIO; return -1; }
  u64 len = S->files[k->f].len; u64 av = k->pos < len ? len - k->pos : 0;
  if (n > av) n = av;
  if (n > 1 && fault_at(F_READ_SHORT, i, &arg)) { u64 m = 1 + arg % n; n = m; }
  memcpy(buf, S->fdata[k->f] + k->pos, n); k->pos += n; return (ssize_t)n;
}
// returns number of bytes to accept, or -1
static ssize_t do_write(const char*, size_t n) {
  u64 i = S->nwrite++; u64 arg = 0;
  ev(0x71, i);
  if (fault_from(F_WRITE_ENOSPC, i)) { errno = ENOSPC; return -1; }
  if (fault_at(F_WRITE_ENOSPC_ONCE, i, &arg)) { errno = ENOSPC; return -1; }
  if (fault_at(F_WRITE_EIO, i, &arg)) { errno = EIO; return -1; }
  if (n > 1 && fault_at(F_WRITE_SHORT, i, &arg)) return (ssize_t)(1 + arg % n);
  return (ssize_t)n;
}
// as libc does for descriptors, the rest of a short write is written again
static ssize_t ck_write(void* c, const char* buf, size_t n) {
  Ck* k = (Ck*)c; u64 arg = 0; size_t done = 0;
  while (done < n) {
    u64 wi = S->nwrite; ssize_t m = do_write(buf + done, n - done); if (m < 0) return 0;   // fopencookie: 0 signals error
    bool crash = fault_at(F_CRASH_WRITE, wi, &arg); if (crash) m = (ssize_t)(arg % (n - done + 1)); // torn write then power cut
    if (k->app) k->pos = S->files[k->f].len;
    if (k->pos + m > FILE_CAP) { errno = EFBIG; return 0; }
    memcpy(S->fdata[k->f] + k->pos, buf + done, m); k->pos += m; done += m; if (k->pos > S->files[k->f].len) S->files[k->f].len = k->pos;
    if (crash) sim_finish(E_CRASHPOINT, 0);
  }
  return (ssize_t)n;
}
static int ck_seek(void* c, off64_t* off, int wh) {
  Ck* k = (Ck*)c; i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)k->pos : (i64)S->files[k->f].len;
  b += *off; if (b < 0) { errno = EINVAL; return -1; } k->pos = (u64)b; *off = b; return 0;
}
static int ck_close(void* c) {
  Ck* k = (Ck*)c; u64 i = S->nclose++; u64 arg;
  for (size_t j = 0; j < g_open.size(); j++) if (g_open[j] == k) { g_open.erase(g_open.begin() + j); break; }
  bool wr = k->wr; delete k;
  ev(0x72, i);
  if (wr && fault_at(F_CLOSE_FAIL, i, &arg)) { errno = EIO; return -1; }
  return 0;
}
FILE* sim_fopen(const char* name, const char* mode) {
  u64 i = S->nopen++; u64 arg;
  ev(0x73, i);
  if (!name) { errno = EFAULT; return nullptr; }
  if (fault_at(F_OPEN_FAIL, i, &arg)) { errno = EACCES; return nullptr; }
  bool r = mode[0] == 'r', a = mode[0] == 'a', w = mode[0] == 'w', plus = strchr(mode, '+') != nullptr;
  int f = find_file(name, !r);
  if (f < 0) { errno = ENOENT; return nullptr; }
  if (w) S->files[f].len = 0;
  Ck* k = new Ck; k->f = f; k->pos = 0; k->app = a; k->rd = r || plus; k->wr = !r || plus;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie(k, mode, io); k->fp = fp; g_open.push_back(k); return fp;
}
FILE* sim_fopen64(const char* n, const char* m) { return sim_fopen(n, m); }
FILE* sim_freopen(const char*, const char*, FILE*) { errno = ENOSYS; return nullptr; }
int sim_remove(const char* n) { int f = find_file(n, false); if (f < 0) { errno = ENOENT; return -1; } S->files[f].exists = 0; S->files[f].len = 0; return 0; }
int sim_unlink(const char* n) { return sim_remove(n); }
int sim_rename(const char* a, const char* b) {
  int f = find_file(a, false); if (f < 0) { errno = ENOENT; return -1; }
  int g = find_file(b, true); if (g < 0) { errno = ENOSPC; return -1; }
  memcpy(S->fdata[g], S->fdata[f], S->files[f].len); S->files[g].len = S->files[f].len; S->files[f].exists = 0; S->files[f].len = 0; return 0;
}
static ssize_t so_write(void* c, const char* buf, size_t n) {
  if (c == (void*)1) { size_t done = 0; while (done < n) { ssize_t m = do_write(buf + done, n - done); if (m < 0) return 0; u64 k = std::min<u64>(m, OUT_CAP - S->outlen); memcpy(S->out + S->outlen, buf + done, k); S->outlen += k; done += m; } return (ssize_t)n; }
  u64 k = std::min<u64>(n, sizeof(S->err) - S->errlen); memcpy(S->err + S->errlen, buf, k); S->errlen += k; return (ssize_t)n;
}
static int g_exiting = 0;
void sim_exit(int code) {
  g_live = g_live; 
  if (!g_exiting) { g_exiting = 1; auto o = g_open; for (Ck* k : o) fflush(k->fp); fflush(stdout); fflush(stderr); }
  sim_finish(E_EXIT, code & 255);
}
int msolve_main(int, char**);
} // extern C

static void flush_counters() {
  S->steps = g_fuel0 - (u64)g_fuel; S->psteps = g_psteps;
}
static void child_body() {
  int rc;
  if (C->mode == 1) rc = sim_api_main(C->argv);
  else {
    static std::vector<char*> av; static std::vector<std::string> st; st.push_back("msolve"); for (auto& a : C->argv) st.push_back(a);
    for (auto& a : st) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    optind = 1;
    rc = msolve_main((int)st.size(), av.data());
  }
  sim_exit(rc);
}
static void child_entry() { cur = &mainf; child_body(); abort(); }

static void on_bt(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc; u64 pc = u->uc_mcontext.gregs[REG_RIP], *sp = (u64*)u->uc_mcontext.gregs[REG_RSP];
  char b[8192]; int n = snprintf(b, sizeof b, "BT sig %d addr %p pc %lx :", sig, si->si_addr, (unsigned long)pc);
  static u64 cp[2048]; int have = 0; for (; have < 2048; have += 16) { struct iovec l = {cp + have, 128}, q = {sp + have, 128}; if (process_vm_readv(getpid(), &l, 1, &q, 1, 0) != 128) break; }
  sp = cp; for (int i = 0, k = 0; i < have && k < 24; i++) if (sp[i] > 0x401000 && sp[i] < (u64)&etext) { n += snprintf(b + n, sizeof b - n, " %lx", (unsigned long)sp[i]); k++; }
  b[n++] = '\n'; int f = open(getenv("MSIM_BT"), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f >= 0) { if (write(f, b, n)) {} close(f); }
  raise(sig);
}
static void on_cpu(int) { sim_finish(E_CPU, 0); }

static void child(Shm* sh) {
  S = sh;
  Scenario* sc = new Scenario; size_t pos = 0; std::string req(S->req, S->req_len);
  if (!sc->parse(req, pos)) { fprintf(stderr, "bad request\n"); _exit(98); }
  C = sc;
  // simulated devices
  S->nfiles = 0;
  for (auto& f : C->files) { int i = find_file(f.first.c_str(), true); memcpy(S->fdata[i], f.second.data(), f.second.size()); S->files[i].len = f.second.size(); }
  g_srng = Rng(C->sched_seed ^ 0x5151); g_trng = Rng(C->team_seed ^ 0x7777); g_crng = Rng(C->clock_seed ^ 0xc10c); g_rrng = Rng(C->rand_seed ^ 0x4a4d); g_frng = Rng(C->fill_seed ^ 0xf111);
  g_now0 = g_now_us; 
  if (C->sched == SK_PCT) {
    u64 span = C->sched_gap * 200; int d = 1 + (int)g_srng.below(6);
    for (int i = 0; i < d; i++) pct_points.push_back(1 + g_srng.below(span)); std::sort(pct_points.begin(), pct_points.end());
  }
  shadow = (Sh*)mmap(nullptr, sizeof(Sh) * SHN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cookie_io_functions_t io = {nullptr, so_write, nullptr, nullptr};
  FILE* so = fopencookie((void*)1, "w", io); FILE* se = fopencookie((void*)2, "w", io); setvbuf(se, nullptr, _IONBF, 0);
  stdout = so; stderr = se;
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)C->mem_mb << 20; setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = C->cpu_s; rl.rlim_max = C->cpu_s + 5; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGXCPU, on_cpu);
  if (getenv("MSIM_BT")) { static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_RESETHAND; sa.sa_sigaction = on_bt; for (int q : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(q, &sa, nullptr); }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_fuel = (i64)C->fuel; g_fuel0 = C->fuel;
  for (auto& f : C->faults) if (f.kind == F_CRASH_STEP && f.at < C->fuel) { g_fuel = (i64)f.at; g_fuel0 = f.at; }
  size_t msz = 256u << 20; char* stk = stack_new(msz); cur = &mainf; mainf.stk = stk;
  void* dummy; void* sp = mkstack(stk, msz, child_entry);
  g_live = true;
  sim_swtch(&dummy, sp);
  abort();
}

// ------------------------------------------------------------ zygote
void zygote_main(int memfd, int rfd, int wfd) {
  void* shm = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, memfd, 0);
  if (shm == MAP_FAILED) _exit(96);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int nul = open("/dev/null", O_RDWR); if (nul >= 0) dup2(nul, 2);
  for (;;) {
    char c; if (read(rfd, &c, 1) != 1) _exit(0);
    pid_t p = fork();
    if (p == 0) { child((Shm*)shm); _exit(97); }
    int st = 0;
    if (p < 0) { st = -1; } else while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (write(wfd, &st, sizeof st) != sizeof st) _exit(0);
  }
}
void Zygote::start(const char* exe) {
  int mf = (int)memfd_create("msim", 0); if (mf < 0 || ftruncate(mf, sizeof(Shm))) { perror("memfd"); exit(3); }
  shm = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, mf, 0);
  if (shm == MAP_FAILED) { perror("shm"); exit(3); }
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(3); }
  pid = fork();
  if (pid == 0) {
    int f = fcntl(mf, F_DUPFD, 100), r = fcntl(a[0], F_DUPFD, 100), w = fcntl(b[1], F_DUPFD, 100);
    char x[16], y[16], z[16]; snprintf(x, 16, "%d", f); snprintf(y, 16, "%d", r); snprintf(z, 16, "%d", w);
    execl(exe, "msim", "zygote", x, y, z, (char*)nullptr); _exit(95);
  }
  close(a[0]); close(b[1]); close(mf); to = a[1]; from = b[0];
}
void Zygote::stop() { if (to >= 0) { close(to); close(from); int st; waitpid(pid, &st, 0); munmap(shm, sizeof(Shm)); to = -1; } }
Result Zygote::run(const Scenario& s) {
  Shm* h = (Shm*)shm; Result r;
  std::string q = s.ser();
  if (q.size() > REQ_CAP) { fprintf(stderr, "request too big\n"); exit(3); }
  memset((void*)h, 0, offsetof(Shm, dec));
  memcpy(h->req, q.data(), q.size()); h->req_len = q.size();
  char c = 'r'; int st = 0;
  if (write(to, &c, 1) != 1 || read(from, &st, sizeof st) != sizeof st) { fprintf(stderr, "zygote lost\n"); exit(3); }
  if (h->end != E_NONE) { r.end = h->end; r.code = h->code; }
  else if (st != -1 && WIFSIGNALED(st)) { r.end = WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU ? E_CPU : E_SIGNAL; r.code = WTERMSIG(st); }
  else { fprintf(stderr, "simulated process ended oddly: status %x\n", st); exit(3); }
  if (r.end == E_FUEL) for (auto& f : s.faults) if (f.kind == F_CRASH_STEP && f.at < s.fuel) { r.end = E_CRASHPOINT; h->fired[F_CRASH_STEP]++; }
  r.steps = h->steps; r.psteps = h->psteps; r.regions = h->regions; r.switches = h->switches; r.conflicts = h->conflicts; r.sim_us = h->sim_us;
  r.nalloc = h->nalloc; r.nread = h->nread; r.nwrite = h->nwrite; r.nopen = h->nopen; r.nclose = h->nclose; r.nrand = h->nrand; r.nclock = h->nclock;
  r.teams_small = h->teams_small; r.rand_forced = h->rand_forced; r.switch_hash = h->switch_hash;
  memcpy(r.fired, h->fired, sizeof r.fired); memcpy(r.rand_first, h->rand_first, sizeof r.rand_first);
  for (u32 i = 0; i < h->nfiles; i++) if (h->files[i].exists) r.files.push_back({h->files[i].name, std::string(h->fdata[i], h->files[i].len)});
  r.out.assign(h->out, h->outlen); r.err.assign(h->err, h->errlen);
  r.decisions.assign(h->dec, h->dec + h->ndec);
  r.confpairs.assign(h->conf, h->conf + h->nconf);
  u64 x = h->hash; if (r.end == E_CPU) { r.hash = 0xc9; return r; }
  x = hmix(x, r.end); x = hmix(x, r.code); x = hmix(x, r.psteps); x = hmix(x, r.nalloc); x = hmix(x, r.nrand); x = hmix(x, r.nclock);
  if (r.end == E_EXIT) x = hmix(x, r.steps);
  x = hmix(x, hbytes(r.out.data(), r.out.size()));
  for (auto& f : r.files) x = hmix(x, hbytes(f.second.data(), f.second.size()));
  r.hash = x;
  return r;
}
std::string Result::brief() const {
  char b[256]; const char* e[] = {"none", "exit", "fuel-exhausted", "deadlock", "signal", "cpu-limit", "crash-point", "oom", "trace-full"};
  snprintf(b, sizeof b, "%s(%d) steps=%lu psteps=%lu regions=%lu switches=%lu", e[end], code, (unsigned long)steps, (unsigned long)psteps, (unsigned long)regions, (unsigned long)switches);
  return b;
}
// ------------------------------------------------------------ (de)serialisation
static void put(std::string& o, const char* k, const std::string& v) { o += k; o += ' '; o += std::to_string(v.size()); o += '\n'; o += v; o += '\n'; }
static void putn(std::string& o, const char* k, u64 v) { o += k; o += ' '; o += std::to_string(v); o += '\n'; }
std::string Scenario::ser() const {
  std::string o = "SCENARIO\n";
  putn(o, "mode", mode); putn(o, "variant", variant);
  for (auto& a : argv) put(o, "arg", a);
  for (auto& f : files) { put(o, "fname", f.first); put(o, "fdata", f.second); }
  o += "sched " + std::string(sched_names[sched]) + "\n"; putn(o, "sched_seed", sched_seed); putn(o, "sched_gap", sched_gap);
  putn(o, "team", team); putn(o, "team_seed", team_seed); putn(o, "rand_seed", rand_seed);
  for (auto& r : rand_over) o += "rand_over " + std::to_string(r.first) + " " + std::to_string(r.second) + "\n";
  o += "clock " + std::string(clock_names[clock]) + "\n"; putn(o, "clock_seed", clock_seed);
  for (auto& f : faults) o += "fault " + std::string(fault_names[f.kind]) + " " + std::to_string(f.at) + " " + std::to_string(f.arg) + "\n";
  putn(o, "fill", fill); putn(o, "fill_seed", fill_seed); putn(o, "fuel", fuel); putn(o, "mem_mb", mem_mb); putn(o, "cpu_s", cpu_s);
  if (sched == SK_REPLAY) for (auto& d : decisions) o += "switch " + std::to_string(d.region) + " " + std::to_string(d.fiber) + " " + std::to_string(d.local) + " " + std::to_string(d.target) + "\n";
  o += "END\n";
  return o;
}
bool Scenario::parse(const std::string& s, size_t& p) {
  auto line = [&]() { size_t e = s.find('\n', p); if (e == std::string::npos) { p = s.size(); return std::string("END"); } std::string l = s.substr(p, e - p); p = e + 1; return l; };
  if (line() != "SCENARIO") return false;
  std::string fn;
  for (;;) {
    std::string l = line(); if (l == "END") return true;
    size_t sp = l.find(' '); if (sp == std::string::npos) return false;
    std::string k = l.substr(0, sp), v = l.substr(sp + 1); u64 n = strtoull(v.c_str(), nullptr, 10);
    auto blob = [&]() { std::string b = s.substr(p, n); p += n + 1; return b; };
    if (k == "mode") mode = (int)n; else if (k == "variant") variant = (int)n; else if (k == "arg") argv.push_back(blob());
    else if (k == "fname") fn = blob(); else if (k == "fdata") files.push_back({fn, blob()});
    else if (k == "sched") { for (int i = 0; i < SK_NUM; i++) if (v == sched_names[i]) sched = i; }
    else if (k == "sched_seed") sched_seed = n; else if (k == "sched_gap") sched_gap = n; else if (k == "team") team = (int)n; else if (k == "team_seed") team_seed = n;
    else if (k == "rand_seed") rand_seed = n; else if (k == "rand_over") { char* e; u32 a = (u32)strtoul(v.c_str(), &e, 10); rand_over.push_back({a, (u32)strtoul(e, nullptr, 10)}); }
    else if (k == "clock") { for (int i = 0; i < CK_NUM; i++) if (v == clock_names[i]) clock = i; } else if (k == "clock_seed") clock_seed = n;
    else if (k == "fault") { char nm[64]; unsigned long a, b; if (sscanf(v.c_str(), "%63s %lu %lu", nm, &a, &b) == 3) for (int i = 0; i < F_NUM; i++) if (!strcmp(nm, fault_names[i])) faults.push_back({i, a, b}); }
    else if (k == "fill") fill = (int)n; else if (k == "fill_seed") fill_seed = n; else if (k == "fuel") fuel = n; else if (k == "mem_mb") mem_mb = (int)n; else if (k == "cpu_s") cpu_s = (int)n;
    else if (k == "switch") { Decision d; unsigned long a, b, c, t; sscanf(v.c_str(), "%lu %lu %lu %lu", &a, &b, &c, &t); d.region = (u32)a; d.fiber = (u32)b; d.local = c; d.target = (u32)t; decisions.push_back(d); }
  }
}
