#include "odesys.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
void registerAlgebraic() { static AlgebraicSolverClassesRegistrator<VD> a; }
