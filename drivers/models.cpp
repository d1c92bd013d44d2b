// models.cpp: the built-in models. arguments: gen file | seed number
#include "json.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters OP;
typedef std::vector<std::string> Strs;
typedef std::shared_ptr< OdeRhs<VD> > Rhs;
static V vec( const std::vector<double>& x ) { V v( x.size() ); for( size_t i=0; i<x.size(); ++i ) v[i] = x[i]; return v; }
static std::string params( const OP::Parameters& p ) {
    std::string r = "{";
    for( auto& i : p ) {
        auto s = i.second.value<std::string>();
        r += ( r.size() > 1? ",": "" ) + jstr( i.first ) + ":";
        char *end;
        double v = std::strtod( s.c_str(), &end );
        r += *end || s.empty()? jstr( s ): i.first == "n"? std::to_string( i.second.value<unsigned>() ): jd( v );
    }
    return r + "}";
}
static void info( const Rhs& m, const char *what, const std::string& given, bool refused ) {
    std::vector<unsigned> f = m->zeroFuncFlags();
    Ev( what ).raw( "given", given ).b( "refused", refused ).raw( "p", params( m->parameters() ) ).i( "second", m->secondOrderVarCount() ).i( "first", m->firstOrderVarCount() )
        .i( "vars", m->varCount() ).i( "zf", m->zeroFuncCount() ).raw( "flags", jveci( f ) ).i( "ids", m->varIds().size() );
}
static Rhs make( const std::string& type ) {
    Ev( "type" ).s( "m", type );
    auto m = Factory< OdeRhs<VD> >::newInstance( type );
    info( m, "new", "{}", false );
    return m;
}
static void set( const Rhs& m, const OP::Parameters& p ) {
    bool refused = false;
    auto given = params( p );
    try { m->setParameters( p ); } catch( std::exception& ) { refused = true; }
    info( m, "set", given, refused );
}
static void rhs( const Rhs& m, double t, const V& x, unsigned size ) {
    int pre = 0, post = 0;
    bool same = true;
    V d( size ), seen;
    for( unsigned i=0; i<size; ++i ) d[i] = 7 + i;
    auto eq = [&]( const V& a, const V& b ) { if( a.size() != b.size() ) return false; for( unsigned i=0; i<a.size(); ++i ) if( !( a[i] == b[i] ) ) return false; return true; };
    auto o1 = cxx::makeScopedIdentifiedElement( m->odeRhsPreObservers, [&]( double a, const V& y, const OdeRhs<VD> *p ) { ++pre; same = same && a == t && eq( x, y ) && p == m.get() && !post; } );
    auto o2 = cxx::makeScopedIdentifiedElement( m->odeRhsPostObservers, [&]( double a, const V& y, const V& z, const OdeRhs<VD> *p ) { ++post; seen = z; same = same && a == t && eq( x, y ) && p == m.get() && pre; } );
    V before = x;
    if( size == 99 ) d = m->rhs( t, x ); else m->rhs( d, t, x );
    Ev( "rhs" ).d( "t", t ).v( "x", before ).v( "d", d ).b( "observed", pre == 1 && post == 1 && same && eq( seen, d ) && eq( before, x ) );
}
static void zero( const Rhs& m, double t, const V& x ) { V z; if( m->zeroFuncCount() ) z = V( 3 ); m->zeroFunctions( z, t, x ); Ev( "zero" ).v( "x", x ).v( "z", z ); }
static void swit( const Rhs& m, const int *tr, double t, V& x ) { V b = x; m->switchPhaseState( tr, t, x ); Ev( "switch" ).d( "t", t ).v( "x", b ).v( "y", x ); }
static double num( Rng& r, double scale ) { return r.chance( 30 )? r.range( -3, 3 ): r.chance( 20 )? 0: scale*r.dyadic( 9, 1024 ); }
static OP::Parameters someParams( Rng& r, const std::string& type ) {
    OP::Parameters p;
    auto pos = [&]() { return r.chance( 15 )? r.range( 1, 1000 ): r.range( 1, 64 )/8.; };
    if( type == "oscillator" ) { if( r.chance( 60 ) ) p["c"] = r.chance( 20 )? -pos(): pos(); if( r.chance( 60 ) ) p["f"] = num( r, 8 ); }
    if( type == "coupled_nl_osc" ) { if( r.chance( 70 ) ) p["n"] = r.chance( 70 )? r.range( 1, 4 ): r.range( 1, 12 ); if( r.chance( 60 ) ) p["c0"] = num( r, 8 ); if( r.chance( 60 ) ) p["c2"] = num( r, 8 ); if( r.chance( 60 ) ) p["f"] = num( r, 8 ); }
    if( type == "stiff_1d" ) { if( r.chance( 70 ) ) p["a"] = num( r, 64 ); }
    if( type == "bouncing_ball" ) { if( r.chance( 60 ) ) p["gravity_acceleration"] = num( r, 8 ); if( r.chance( 60 ) ) p["recovery_factor"] = r.range( 0, 9 )/8.; if( r.chance( 60 ) ) p["stick_speed"] = r.range( 0, 16 )/8.; }
    if( type == "sliding_point" ) {
        if( r.chance( 70 ) ) p["friction"] = r.pick( Strs{ "atan", "tabular", "linear", "tabular", "linear", r.pick( Strs{ "Atan", "", "sliding", "lin", "tabular ", "0" } ) } );
        if( r.chance( 50 ) ) p["mass"] = pos(); if( r.chance( 50 ) ) p["f0"] = num( r, 8 ); if( r.chance( 50 ) ) p["v0"] = pos();
        if( r.chance( 50 ) ) p["F1"] = num( r, 8 ); if( r.chance( 50 ) ) p["F2"] = num( r, 8 ); if( r.chance( 50 ) ) p["omega"] = num( r, 8 );
    }
    if( r.chance( 10 ) ) p["unknown"] = 1;
    return p;
}
static V state( Rng& r, unsigned n ) { std::vector<double> x; int z = r.below( 10 ); for( unsigned i=0; i<n; ++i ) x.push_back( !z? 0: num( r, 2 ) ); return vec( x ); }
static void calls( Rng& r, const std::string& type ) {
    auto m = make( type );
    int n = r.range( 3, 14 );
    for( int i=0; i<n; ++i ) {
        int k = r.below( 10 );
        V x = state( r, m->varCount() );
        double t = r.chance( 20 )? 0: r.dyadic( 5, 64 );
        if( k < 3 ) set( m, someParams( r, type ) );
        else if( k == 3 ) zero( m, t, x );
        else if( k < 6 && type == "bouncing_ball" ) {
            if( r.chance( 40 ) ) x[1] = ( r.chance( 50 )? 1: -1 )*std::ldexp( r.range( 0, 20 ), r.pick( std::vector<int>{ -4, -18, -20, 2 } ) );
            int tr = r.chance( 80 )? -1: 1;
            if( r.chance( 70 ) ) x[0] = r.chance( 50 )? 0: -std::ldexp( 1, -30 );
            swit( m, &tr, t, x );
            if( r.chance( 80 ) ) rhs( m, t, x, 2 );
        }
        else rhs( m, t, x, r.chance( 20 )? 99: r.chance( 30 )? r.below( 9 ): m->varCount() );
    }
}
// The ball, watched while a solver moves it
class Watched : public OdeRhs<VD> {
public:
    Rhs m;
    unsigned secondOrderVarCount() const { return m->secondOrderVarCount(); }
    unsigned firstOrderVarCount() const { return m->firstOrderVarCount(); }
    unsigned zeroFuncCount() const { return m->zeroFuncCount(); }
    std::vector<unsigned> zeroFuncFlags() const { return m->zeroFuncFlags(); }
    void rhs( V& d, double t, const V& x ) const { d = V( varCount() ); m->rhs( d, t, x ); Ev( "rhs" ).d( "t", t ).v( "x", x ).v( "d", d ).b( "observed", true ); }
    void zeroFunctions( V& z, double t, const V& x ) const { m->zeroFunctions( z, t, x ); Ev( "zero" ).v( "x", x ).v( "z", z ); }
    void switchPhaseState( const int *tr, double t, V& x ) { swit( m, tr, t, x ); }
};
static void run( Rng& r ) {
    auto type = r.pick( Strs{ "bouncing_ball", "bouncing_ball", "sliding_point", "coupled_nl_osc", "stiff_1d", "oscillator" } );
    auto w = std::make_shared<Watched>();
    w->m = make( type );
    auto p = someParams( r, type );
    p.erase( "unknown" );
    if( p.count( "friction" ) ) p["friction"] = r.pick( Strs{ "atan", "tabular", "linear" } );
    set( w->m, p );
    auto s = Factory< OdeSolver<VD> >::newInstance( r.pick( Strs{ "euler", "rk4", "dopri_45", "dopri_56", "gragg", "rosenbrock_w1" } ) );
    auto h = std::dynamic_pointer_cast< OdeEventControllerHolder<VD> >( s );
    if( h ) h->setEventController( Factory< OdeEventController<VD> >::newInstance( "linear" ) );
    s->setOdeRhs( w );
    V x = state( r, w->varCount() );
    if( type == "bouncing_ball" ) { x[0] = r.chance( 10 )? 0: r.range( 1, 16 )/8.; x[1] = r.chance( 30 )? 0: num( r, 2 ); }
    s->setInitialState( 0, x );
    s->setInitialStepSize( std::ldexp( 1, -r.range( 1, 6 ) ) );
    int n = r.range( 2, 25 );
    try { for( int i=0; i<n; ++i ) { s->doStep(); auto y = s->initialState(); Ev( "at" ).d( "t", s->initialTime() ).v( "x", y ); double m = 0; for( unsigned k=0; k<y.size(); ++k ) m = std::max( m, std::fabs( y[k] ) ); if( !( m < 1e6 ) ) break; } }
    catch( cxx::exception& e ) { Ev( "gave_up" ).s( "why", e.what() ); }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        OdeNumIntClassesRegistrator<VD> reg;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> models;
        if( a[0] == "gen" ) {
            int k = 0;
            for( auto& g : readScenarios( a[1] ) ) {
                scenario( "models-gen-" + std::to_string( ++k ) );
                auto m = make( "bouncing_ball" );
                OP::Parameters p;
                p["gravity_acceleration"] = 2.; p["recovery_factor"] = g["r"].d(); p["stick_speed"] = 2.;
                set( m, p );
                V x = vec( { 4, 0 } );
                int tr = -1;
                for( auto& act : g["acts"].a ) {
                    auto& w = act.a.at( 0 ).s;
                    if( w == "fall" ) x = vec( { 0, -act.a.at( 1 ).d() } );
                    if( w == "land" ) x[1] = -x[1];
                    if( w == "switch" ) swit( m, &tr, 1, x );
                    rhs( m, 1, x, 2 );
                    zero( m, 1, x );
                }
                Ev( "end" );
            }
        }
        else {
            static const Strs types = { "oscillator", "coupled_nl_osc", "coupled_nl_osc", "stiff_1d", "bouncing_ball", "bouncing_ball", "sliding_point", "sliding_point", "sliding_point" };
            uint64_t seed = std::stoull( a[0] );
            int n = std::stoi( a[1] );
            for( int i=0; i<n; ++i ) {
                Rng r( seed*7919 + i );
                scenario( "models-" + std::to_string( seed ) + "-" + std::to_string( i ) );
                if( r.chance( 75 ) ) calls( r, r.pick( types ) ); else run( r );
                Ev( "end" );
            }
        }
    } );
}
