// comp.cpp: every component the library registers, made by its name.
#include <cxxabi.h>
#include "common.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/ode/interfaces/ExtrapolatorStepSequence.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
static std::string className( const std::type_info& t ) {     // without namespaces and arguments
    int st = 0;
    char *d = abi::__cxa_demangle( t.name(), 0, 0, &st );
    std::string s = d? d: t.name();
    free( d );
    s = s.substr( 0, s.find( '<' ) );
    auto p = s.rfind( ':' );
    return p == std::string::npos? s: s.substr( p+1 );
}
template< class I > static void face( const char *name ) {
    std::string made = "[";
    for( auto& n : Factory<I>::registeredTypes() ) {
        auto a = Factory<I>::newInstance( n ), b = Factory<I>::newInstance( n );
        auto& r = *a;
        made += ( made.size() > 1? ",": "" ) + std::string( "{\"name\":\"" ) + n + "\",\"class\":\"" + className( typeid( r ) ) + "\",\"label\":\"" + TypeIdGetter<I>::typeId( a )
            + "\",\"fresh\":" + ( a != b && typeid( *b ) == typeid( r )? "true": "false" ) + "}";
    }
    bool refused = false;
    try { Factory<I>::newInstance( "no such thing" ); } catch( std::exception& ) { refused = true; }
    Ev( "components" ).s( "face", name ).raw( "made", made + "]" ).b( "refused", refused );
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> ) {
        OdeNumIntClassesRegistrator<VD> r;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> t;
        scenario( "components" );
        face< JacobianProvider<VD> >( "JacobianProvider" );
        face< ErrorEstimator<VD> >( "ErrorEstimator" );
        face< JacobianTrimmer<VD> >( "JacobianTrimmer" );
        face< NewtonDescentDirection<VD> >( "NewtonDescentDirection" );
        face< NewtonLinearSearch<VD> >( "NewtonLinearSearch" );
        face< NewtonIterationPerformer<VD> >( "NewtonIterationPerformer" );
        face< NewtonSolverInterface<VD> >( "NewtonSolverInterface" );
        face< ErrorNormCalculator<VD> >( "ErrorNormCalculator" );
        face< OdeStepSizeController<VD> >( "OdeStepSizeController" );
        face< OdeSolver<VD> >( "OdeSolver" );
        face< OdeRhs<VD> >( "OdeRhs" );
        face< OdeEventController<VD> >( "OdeEventController" );
        face< OdeSolverOutputOption<VD> >( "OdeSolverOutputOption" );
        face< OdeInitState<VD> >( "OdeInitState" );
        face< OdeStepMapping<VD> >( "OdeStepMapping" );
        face< ExtrapolatorStepSequence >( "ExtrapolatorStepSequence" );
        Ev( "end" );
    } );
}
