// rich.cpp: Richardson estimation of errors.
// arguments: gen file | seed number
#include "json.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/RichardsonErrorCalculator.h"
#include "ode_num_int/ErrorStats.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters OP;
typedef std::vector<std::string> Strs;
struct Attempt { bool accepted, truncated, changed; double kick; };
// A solver that does what a script says
class Stub : public OdeSolver<VD> {
public:
    int p = 1; bool loop = false;
    std::vector<Attempt> script; size_t at = 0;
    double t = 0; V x;
    bool disabled = false;
    int order() const { return p; }
    double initialTime() const { return t; }
    V initialState() const { return x; }
    void setInitialState( double t_, const V& x_, bool ) { t = t_; x = x_; }
    void doStep() {
        for(;;) {
            Attempt a = at < script.size()? script[at]: Attempt{ true, false, false, 0 };
            ++at;
            double h = initialStepSize();
            odeSolverPreObservers( h, this );
            if( a.accepted ) {
                double k = a.truncated? h/2: h;
                for( unsigned i=0; i<x.size(); ++i ) x[i] = x[i]*( 1 - k/4 ) + k*( i+1 + a.kick );
                t += k;
            }
            odeSolverPostObservers( OdeSolverPostObserverArg<VD>( h, a.accepted, a.changed, a.truncated, 0, ~0u, 0, this ) );
            if( a.accepted || !loop ) break;
        }
    }
};
static void calculate( std::shared_ptr< OdeSolver<VD> > s, double T, double h, bool loop ) {
    RichardsonErrorCalculator<VD> c;
    c.setOdeSolver( s );
    Ev( "calc" ).d( "T", T ).d( "h", h ).i( "p", s->order() ).d( "t", s->initialTime() ).v( "x", s->initialState() ).b( "loop", loop ).b( "implicit", dynamic_cast<OdeSolverImplicitEuler<VD>*>( s.get() ) != nullptr );
    auto o1 = cxx::makeScopedIdentifiedElement( s->odeSolverPreObservers, []( double h, const OdeSolver<VD> *p ) { Ev( "pre" ).d( "h", h ).d( "t", p->initialTime() ).v( "x", p->initialState() ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, []( const OdeSolverPostObserverArg<VD>& a ) {
        Ev( "att" ).d( "t", a.solver()->initialTime() ).v( "x", a.solver()->initialState() ).b( "accepted", a.stepAccepted() ).b( "truncated", a.stepTruncated() ).b( "changed", a.stepSizeChanged() ); } );
    auto o3 = cxx::makeScopedIdentifiedElement( c.stepObservers, []( double t, double h, const V& e ) { Ev( "sample" ).d( "t", t ).d( "h", h ).v( "err", e ); } );
    try {
        auto r = c.calculateError( T, h );
        bool disabled = true;
        if( auto b = dynamic_cast<Stub*>( s.get() ) ) disabled = true; else { auto q = s->parameters(); if( q.count( "disable_error_check" ) ) disabled = q["disable_error_check"].value<bool>(); }
        Ev( "result" ).i( "n", r.sampleCount() ).v( "max", r.errorMaxValue() ).v( "sum", r.errorSum() ).b( "disabled", disabled );
    }
    catch( std::exception& e ) { Ev( "thrown" ).s( "why", e.what() ); }
}
static V vec( const std::vector<double>& x ) { V v( x.size() ); for( size_t i=0; i<x.size(); ++i ) v[i] = x[i]; return v; }
static void stats( Rng& r ) {
    ErrorStats<double> a( 0. ), b( 0. ), c( 0. );
    std::vector<double> all;
    int n = r.range( 0, 9 );
    for( int i=0; i<n; ++i ) { double x = r.chance( 20 )? r.range( -2, 2 ): r.dyadic( 9, 1024 ); all.push_back( x ); ( i%3 == 0? a: i%3 == 1? b: c ).addSample( x ); }
    auto s = a + b;
    s += c;
    Ev( "stat" ).v( "samples", all ).i( "n", s.sampleCount() ).d( "max", s.errorMaxValue() ).d( "sum", s.errorSum() ).d( "squares", s.errorSquareSum() ).d( "mean", n? s.errorMeanValue(): 0 );
}
static void real( Rng& r ) {
    static const Strs solvers = { "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "extrapolator", "gragg", "i_euler", "rosenbrock_w1", "rosenbrock_sw2_4" };
    static const Strs models = { "oscillator", "stiff_1d", "bouncing_ball", "bouncing_ball", "coupled_nl_osc", "sliding_point" };
    auto type = r.pick( solvers ), model = r.pick( models );
    auto s = Factory< OdeSolver<VD> >::newInstance( type );
    auto rhs = Factory< OdeRhs<VD> >::newInstance( model );
    if( model == "coupled_nl_osc" ) { OP::Parameters p; p["n"] = r.range( 1, 3 ); p["c0"] = r.range( 1, 9 ); p["c2"] = r.range( 0, 4 ); rhs->setParameters( p ); }
    if( type == "extrapolator" ) { OP::Parameters p; p["reference_solver"] = r.pick( Strs{ "gragg", "rk4" } ); p["step_sequence"] = r.pick( Strs{ "bulirsch", "harmonic", "romberg" } ); s->setParameters( p ); }
    s->setOdeRhs( rhs );
    std::vector<double> x;
    for( unsigned i=0; i<rhs->varCount(); ++i ) x.push_back( r.dyadic( 1, 16 ) + ( model == "bouncing_ball" && !i? 1.125: 0 ) );
    s->setInitialState( r.chance( 50 )? 0: r.dyadic( 3, 8 ), vec( x ) );
    if( r.chance( 30 ) ) { int n = r.range( 1, 3 ); try { for( int i=0; i<n; ++i ) s->doStep(); } catch( cxx::exception& ) {} s->setInitialState( r.dyadic( 3, 8 ), vec( x ) ); }
    double h = std::ldexp( 1., r.range( -6, -3 ) );
    calculate( s, h*r.range( 0, 16 )/4., h, true );
}
static void scripted( Rng& r ) {
    auto s = std::make_shared<Stub>();
    s->p = r.range( 1, 9 );
    s->loop = r.chance( 50 );
    int n = r.range( 1, 3 );
    std::vector<double> x;
    for( int i=0; i<n; ++i ) x.push_back( r.dyadic( 4, 64 ) );
    s->setInitialState( r.dyadic( 4, 8 ), vec( x ), false );
    int bad = r.chance( 70 )? r.range( 5, 30 ): 0, change = r.chance( 15 )? 5: 0;
    double h = std::ldexp( r.range( 1, 3 ), -r.range( 1, 5 ) );
    for( int i=0; i<60; ++i ) { bool b = r.chance( bad ); bool rej = b && r.chance( 50 ); s->script.push_back( Attempt{ !rej, b && !rej, r.chance( change ), r.dyadic( 1, 8 ) } ); }
    calculate( s, r.chance( 5 )? -h: h*r.range( 0, 40 )/4., h, s->loop );
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        OdeNumIntClassesRegistrator<VD> reg;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> models;
        if( a[0] == "gen" ) {
            int k = 0;
            for( auto& g : readScenarios( a[1] ) ) {
                Rng r( ++k );
                scenario( "rich-gen-" + std::to_string( k ) );
                auto s = std::make_shared<Stub>();
                s->p = g["p"].i();
                s->setInitialState( 1, vec( { 0.5, -1 } ), false );
                for( auto& q : g["atts"].a ) s->script.push_back( Attempt{ q.s != "rejected", q.s == "truncated", q.s == "changed", r.dyadic( 1, 8 ) } );
                calculate( s, g["T"].d()/2, 1, false );
                Ev( "end" );
            }
        }
        else {
            uint64_t seed = std::stoull( a[0] );
            int n = std::stoi( a[1] );
            for( int i=0; i<n; ++i ) {
                Rng r( seed*6151 + i );
                scenario( "rich-" + std::to_string( seed ) + "-" + std::to_string( i ) );
                int k = r.below( 10 );
                if( k < 5 ) scripted( r ); else if( k < 9 ) real( r ); else stats( r );
                Ev( "end" );
            }
        }
    } );
}
