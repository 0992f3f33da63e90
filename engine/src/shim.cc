#include <stdint.h>
#include <minisat/core/Solver.h>
using namespace Minisat;
struct S : Solver {
  vec<Lit> cl, as;
};
extern "C" {
void* ms_new() { return new S(); }
void ms_del(void* s) { delete (S*)s; }
int ms_new_var(void* s) { return ((S*)s)->newVar(); }
// literals: 2*var+sign
void ms_add(void* s, const int* l, int n) {
  S* x = (S*)s; x->cl.clear();
  for (int i = 0; i < n; i++) x->cl.push(toLit(l[i]));
  x->addClause_(x->cl);
}
// 1 sat, 0 unsat, 2 unknown
int ms_solve(void* s, const int* l, int n, int64_t confl) {
  S* x = (S*)s; x->as.clear();
  for (int i = 0; i < n; i++) x->as.push(toLit(l[i]));
  if (confl >= 0) x->setConfBudget(confl); else x->budgetOff();
  lbool r = x->solveLimited(x->as);
  return r == l_True ? 1 : r == l_False ? 0 : 2;
}
int ms_val(void* s, int v) { return ((S*)s)->model[v] == l_True; }
uint64_t ms_conflicts(void* s) { return ((S*)s)->conflicts; }
int ms_nvars(void* s) { return ((S*)s)->nVars(); }
int ms_nclauses(void* s) { return ((S*)s)->nClauses(); }
void ms_decide(void* s, int v, int b) { ((S*)s)->setDecisionVar(v, b != 0); }
void ms_random(void* s, double seed) { S* x = (S*)s; x->random_seed = seed; x->rnd_init_act = true; x->random_var_freq = 0.01; }
void ms_polarity(void* s, int v, int b) { ((S*)s)->setPolarity(v, b ? l_True : l_False); }
}
