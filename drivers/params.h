// params.h: what drivers of parameters share.
#ifndef VERIF_PARAMS_H
#define VERIF_PARAMS_H
#include "json.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/ode/interfaces/ExtrapolatorStepSequence.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef OptionalParameters OP;
typedef std::vector<std::string> Strs;
static std::string q( const std::string& s ) { return "\"" + s + "\""; }
static std::string jstrs( const Strs& v ) { std::string r = "["; for( auto& s : v ) r += ( r.size() > 1? ",": "" ) + q( s ); return r + "]"; }
static std::string text( double x ) { char b[40]; snprintf( b, 40, "%.16g", x ); return b; }
typedef std::vector< std::pair<Strs, std::string> > Flat;
static void flatten( const OP::Parameters& p, Strs path, Flat& f ) {
    for( auto& i : p ) {
        Strs k = path;
        k.push_back( i.first );
        f.push_back( { k, i.second.value<std::string>() } );
        if( i.second.nestedParameters() ) flatten( *i.second.nestedParameters(), k, f );
    }
}
static std::string jflat( const Flat& f ) {
    std::string r = "[";
    for( auto& i : f ) r += ( r.size() > 1? ",[": "[" ) + jstrs( i.first ) + "," + q( i.second ) + "]";
    return r + "]";
}
static std::string join( const Strs& p ) { std::string r; for( size_t i=0; i<p.size(); ++i ) r += ( i? ".": "" ) + p[i]; return r; }
static const Strs texts = { "0", "1", "2", "3", "17", "007", "+5", "-1", "-12", "-0", "00", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
    "99999999999999999999", "0.5", ".5", "0.50", "7.", "0.1", "9.8", "-2.5e-3", "1e-6", "1E5", "1e+16", "12e0", "123456789.123456789", "1e400", "-1e400", "true", "false" };
static const Strs odd = { "", "abc", "1x", "0x10", "1e", "e5", "--1", "+", ".", "1,5", " 1", "1 ", "1 2", "True", "yes", "inf", "nan", "-", "1.2.3", "atan ", "LOW" };
static const Strs enums = { "low", "high", "atan", "tabular", "linear" };
static const Strs types = { "", "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "extrapolator", "gragg", "i_euler", "rosenbrock_w1", "rosenbrock_sw2_4",
    "default", "sparse", "simple", "threshold", "width", "broyden", "const", "fake-broyden", "lazy-fake-broyden", "hart", "newton", "inf", "bouncing_ball", "coupled_nl_osc",
    "oscillator", "sliding_point", "stiff_1d", "linear", "con_general", "con_solution", "con_solution_columnwise", "stats_full", "specified", "bulirsch", "harmonic", "romberg" };
static double number( Rng& r ) {       // a number whose text is not a plain integer
    for(;;) {
        double x = std::ldexp( ( r.chance( 50 )? 1: -1 )*( 1 + r.below( 1000000 )/1000000. + r.below( 1000000 )/1e12 ), r.range( -60, 60 ) );
        auto t = text( x );
        if( t.find_first_of( ".e" ) != std::string::npos ) return x;
    }
}
#endif
