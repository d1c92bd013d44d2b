#include "odesys.h"
#include "ode_num_int/ode/reg/OdeSolverClassesRegistrator.h"
void registerOdeSolvers() { static OdeSolverClassesRegistrator<VD> a; }
