#pragma once
#include "alg.h"
struct GenOpt { u64 ch = 0; int minv = 1, maxv = 4; int size = 2; bool zerodim = false; bool bigcoef = true; bool rational = true; int family = -1; };
Sys gen_sys(Rng& r, const GenOpt& g, std::string* fam = nullptr);
QPoly rnd_poly(Rng& r, int n, int deg, int nterms, int cb, u64 ch, bool rational);
u64 gen_prime(Rng& r, int bits_class);       // 8, 16, 31 (any 31-bit), 30 (>= 2^30, safe for probabilistic linear algebra)
// options that never may change the mathematical result
void knobs(Rng& r, std::vector<std::string>& argv, bool prob_ok, int maxthreads);
bool unlucky(Rng& r, Sys& s, u32& v);           // degenerate modulo the primes drawn when the first draw is v
void swarm(Rng& r, Scenario& s);             // schedule, team, clock, heap contents
void bigdeg(Rng& r, std::string& full, std::string& ref); // univariate of degree 200..530 and its real factor
Sys gen_big(Rng& r, u64 ch, bool zerodim, std::string* fam = nullptr);
// the same system written differently: layout, order, signs, coefficients, split terms, repeated
// variables, renamed variables.  ref is the plain text of the same system (with the same names).
std::string spell(Rng& r, const Sys& s, std::string& ref, bool split, bool pad);
