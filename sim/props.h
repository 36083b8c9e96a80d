#pragma once
#include "rt.h"
#include "gen.h"
#include "solve.h"
#include <map>
#include <set>
struct Case {
  std::string prop; u64 seed = 0; std::vector<Scenario> runs; std::map<std::string, std::string> meta;
  std::string ser() const; bool parse(const std::string& s);
};
struct Verdict { bool bad = false; std::string cls, msg; int run = -1; };
struct Env { Zygote* z[2]; u64 runs = 0; Result run(const Scenario& s); 
  std::map<std::string, u64> probes; struct Agg* agg = nullptr; };
struct Prop {
  const char* id; 
  bool (*gen)(Rng&, Env&, Case&);                             // false: discard (reference too expensive)
  Verdict (*judge)(const Case&, const std::vector<Result>&, Env&);
  bool multi;                                                 // runs are judged together
  u64 quick, thorough;                                        // number of cases
  const char* rule;
};
extern const Prop props[]; extern const int nprops;
const Prop* find_prop(const std::string& id);
std::string first_file(const Scenario& s, const char* name);
