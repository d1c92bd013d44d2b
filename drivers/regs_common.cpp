#include "odesys.h"
#include "ode_num_int/ode/reg/OdeSolverCommonClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeEventControllerClassesRegistrator.h"
void registerCommon() { static OdeSolverCommonClassesRegistrator<VD> a; static OdeEventControllerClassesRegistrator<VD> b; }
