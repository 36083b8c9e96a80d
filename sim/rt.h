// Deterministic simulation runtime for msolve.
//
// The whole of msolve (src/msolve, src/neogb, src/fglm, src/usolve, src/upolmat,
// src/crt) runs inside ONE OS thread.  OpenMP "threads" are fibers; every memory
// access of msolve is a potential preemption point (compiled with
// -fsanitize=thread, linked against this runtime instead of libtsan/libgomp).
// Clock, randomness, files, stdout, heap and exit() go through seams here.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef int32_t i32;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) { u64 z = seed + 0x632BE59BD9B4E019ULL; z = (z ^ (z >> 31)) * 0xff51afd7ed558ccdULL; z = (z ^ (z >> 29)) * 0xc4ceb9fe1a85ec53ULL; s = z ^ (z >> 32); next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
u64 hbytes(const void* p, size_t n, u64 h = 1469598103934665603ULL);

// ---------------------------------------------------------------- scenario
enum SchedKind { SK_SEQ = 0, SK_RANDOM, SK_PCT, SK_CONFLICT, SK_RR, SK_REVERSE, SK_STALL, SK_REPLAY, SK_NUM };
extern const char* sched_names[];
enum ClockKind { CK_NORMAL = 0, CK_FROZEN, CK_JUMPY, CK_BACKWARD, CK_COARSE, CK_HUGE, CK_NUM };
extern const char* clock_names[];
enum FaultKind { F_NONE = 0, F_OPEN_FAIL, F_READ_EIO, F_READ_SHORT, F_WRITE_ENOSPC, F_WRITE_EIO,
                 F_WRITE_SHORT, F_CLOSE_FAIL, F_ALLOC_FAIL, F_ALLOC_FAIL_PERSIST, F_CRASH_STEP, F_CRASH_WRITE,
                 F_WRITE_ENOSPC_ONCE, F_NUM };
extern const char* fault_names[];
struct Fault { int kind; u64 at; u64 arg; };            // at = occurrence index (0 based) of the operation
struct Decision { u32 region; u32 fiber; u64 local; u32 target; };  // local==~0-k : k-th blocking choice

struct Scenario {
  std::vector<std::string> argv;               // cli: argv[1..]; api: program lines
  int mode = 0;                                // 0 cli, 1 api history
  int variant = 0;                             // 0 native SIMD build, 1 scalar build
  std::vector<std::pair<std::string, std::string>> files;
  int sched = SK_SEQ; u64 sched_seed = 0; u64 sched_gap = 100;
  std::vector<Decision> decisions;             // for SK_REPLAY
  int team = 0;                                // 0: as requested; 1: random smaller teams
  u64 team_seed = 0;
  u64 rand_seed = 1; std::vector<std::pair<u32, u32>> rand_over;
  int clock = CK_NORMAL; u64 clock_seed = 0;
  std::vector<Fault> faults;
  int fill = 0; u64 fill_seed = 0;             // heap contents: 0 zero,1 0xA5,2 random,3 0xFF
  u64 fuel = 4000000000ULL;
  int mem_mb = 2500; int cpu_s = 25;
  std::string ser() const;
  bool parse(const std::string& s, size_t& pos);
};

// ---------------------------------------------------------------- result
enum EndKind { E_NONE = 0, E_EXIT = 1, E_FUEL = 2, E_DEADLOCK = 3, E_SIGNAL = 4, E_CPU = 5, E_CRASHPOINT = 6, E_OOM = 7, E_TRACE = 8 };
struct Result {
  int end = E_NONE; int code = 0;               // exit status or signal
  std::vector<std::pair<std::string, std::string>> files;
  std::string out, err;
  u64 steps = 0, psteps = 0, regions = 0, switches = 0, hash = 0, conflicts = 0, sim_us = 0;
  u64 nalloc = 0, nread = 0, nwrite = 0, nopen = 0, nclose = 0, nrand = 0, nclock = 0, teams_small = 0, rand_forced = 0;
  u64 fired[F_NUM] = {0};
  u64 switch_hash = 0;
  u64 rand_first[8] = {0};
  std::vector<Decision> decisions;
  std::vector<u64> confpairs;
  const std::string* file(const std::string& n) const { for (auto& f : files) if (f.first == n) return &f.second; return nullptr; }
  std::string brief() const;
};

// Zygote: a pristine process forked before any work; every run is a fresh fork of it.
struct Zygote {
  int to = -1, from = -1; int pid = -1; void* shm = nullptr;
  void start(const char* exe);              // fork+exec: pristine image
  Result run(const Scenario& s);
  void stop();
};
void zygote_main(int memfd, int rfd, int wfd);   // never returns
// provided by api.cc: execute an API-history program inside the simulated process
int sim_api_main(const std::vector<std::string>& prog);
