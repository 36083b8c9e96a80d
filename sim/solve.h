// Reference model for zero-dimensional solving (quotient algebra, Rouillier RUR,
// exact real root isolation through FLINT/arb) and checkers for msolve's outputs.
#pragma once
#include "alg.h"
#include <functional>
enum Dim { D_EMPTY, D_ZERO, D_POS };
Dim classify(const std::vector<Mon>& lms, int n);
// staircase monomials (empty if positive dimensional or more than cap elements)
bool staircase(const std::vector<Mon>& lms, int n, size_t cap, std::vector<Mon>& B);
struct Box { std::vector<std::pair<Q, Q>> c; };
struct SolveOut { // parsed msolve solving output
  bool ok = false; std::string why; int kind = -9;          // -1 no solution, 1 positive dimension, 0 finite
  int posn = 0;
  bool has_param = false; u64 ch = 0; int nv = 0; i64 deg = -1; std::vector<std::string> vars; std::vector<Q> form; int nparam = 1;
  std::vector<Q> w, d; std::vector<std::vector<Q>> v; std::vector<Q> cf;
  bool has_boxes = false; std::vector<Box> boxes;
};
SolveOut parse_solve(const std::string& t, u64 ch);
// Reference facts about a zero-dimensional system over QQ
struct RefQ { Dim dim; int D = 0; int distinct = 0; int nreal = -1; std::vector<std::vector<std::pair<Q, Q>>> real; std::vector<QPoly> gb; };
// need_real: also isolate the real solutions to very high precision
void ref_qq(const Sys& s, OpCap& cap, RefQ& r, bool need_real, size_t maxD);
struct RefP { Dim dim; int D = 0; int distinct = 0; std::vector<FPoly> gb; };
void ref_fp(const Sys& s, OpCap& cap, RefP& r, size_t maxD);
// "" if fine, otherwise a description of what is wrong
// an error starting with NONSEP is the known loss of solutions of non radical ideals
std::string check_param(const Sys& s, const SolveOut& o, Dim dim, int D, int distinct, const std::vector<QPoly>& gb);
std::string check_boxes(const Sys& s, const SolveOut& o, const RefQ& r, int prec);
// when set, supplies the basis modulo p instead of reducing a rational one
extern std::function<bool(u64, std::vector<FPoly>&)> g_gb_for_prime;
bool facts_fp(const Sys& s, u64 p, const std::vector<FPoly>& gb, size_t maxD, Dim& dim, int& D, int& distinct);
bool real_from_param(const Sys& s, const SolveOut& o, RefQ& r);
