// ec.cpp: the event controller driven directly; the values of the zero functions are the state itself.
// arguments: enum FLAGS NVALS STEPS | random SEED NUMBER | gen FILE
// link: regs_ode regs_alg regs_common
#include "odesys.h"
#include "json.h"

class ScriptRhs : public PolyRhs {
public:
    std::vector<double> after;
    void switchPhaseState( const int *tr, real_type time, V& x ) {
        std::vector<double> xin = fromV( x );
        for( size_t i=0; i<after.size(); ++i ) x[i] = after[i];
        Ev( "switch" ).vi( "tr", std::vector<int>( tr, tr + sys.zf.size() ) ).d( "t", time ).v( "xin", xin ).v( "xout", after ).i( "phase", 0 );
    }
};

struct Box {
    std::shared_ptr< ScriptRhs > rhs = std::make_shared< ScriptRhs >();
    LoggingEventController ec;
    double t = 0;
    std::vector<double> x;
    Box( const std::vector<unsigned>& flags ) {
        rhs->sys.n1 = flags.size();
        for( size_t i=0; i<flags.size(); ++i ) {
            ZeroFn z; z.j = i; z.c = 0; z.flags = flags[i];
            rhs->sys.zf.push_back( z );
            for( auto& f : rhs->sys.f ) f.push_back( Poly() );
        }
        ec.setOdeRhs( rhs );
        Ev( "config" ).s( "name", "euler" ).s( "kind", "rk" ).raw( "sys", rhs->sys.json() )
            .raw( "par", "{\"hInit\":\"1\",\"hMin\":\"0\",\"ctl\":\"default\",\"hSwitch\":\"0\",\"smooth\":false,\"disable\":false,\"norm\":\"inf\"}" )
            .b( "wrap", true ).b( "raw", false ).b( "limited", false ).i( "order", 1 );
    }
    void start( double t0, const std::vector<double>& v ) {
        t = t0; x = v;
        Ev( "state" ).d( "t", t ).v( "x", x ).b( "soft", false ).i( "phase", 0 ).b( "stop", false );
        ec.reset();
    }
    void step( double h, const std::vector<double>& z2, const std::vector<double>& after ) {
        Ev( "pre" ).d( "h", h ).d( "t", t ).v( "x", x );
        V x1 = toV( x ), x2 = toV( z2 );
        double t2 = t + h;
        rhs->after = after;
        ec.atStepStart( x1, t );
        double t1 = t;
        std::vector<double> x1v = x;
        auto ip = [=]( V& v, double at ) { double w = ( at - t1 )/h; for( size_t i=0; i<x1v.size(); ++i ) v[i] = x1v[i]*( 1 - w ) + z2[i]*w; };
        unsigned izf = ~0u; int tt = 0;
        bool tr = ec.atStepEnd( x1, x2, t2, ip, &izf, &tt );
        t = t2; x = fromV( x2 );
        Ev( "post" ).d( "h", h ).b( "acc", true ).b( "chg", false ).b( "trunc", tr ).d( "err", 0 ).i( "izf", izf == ~0u? 0: (long long)izf + 1 ).i( "tt", tt )
            .d( "t", t ).v( "x", x ).b( "self", true );
        Ev( "done" ).d( "t", t ).v( "x", x );
    }
};

static const unsigned FLAGS[] = { 1, 2, 3, 5, 6, 7 };

// all histories of the given number of steps of one function with small values
static void enumerate( unsigned flags, int nvals, int steps ) {
    std::vector<double> vals;
    for( int i=-(nvals/2); i<=nvals/2; ++i ) vals.push_back( i );
    // digits: start, then value at the end of each step, then the value after a switch
    int digits = 1 + steps;
    std::vector<int> d( digits, 0 );
    for( ;; ) {
        for( double after : { -1., 0., 1. } ) {
            if( !( flags & 4 ) && after != 1 ) continue;
            std::string id = "ec-enum-" + std::to_string( flags ) + "-" + std::to_string( (int)after );
            for( int k : d ) id += "-" + std::to_string( (int)vals[k] );
            scenario( id );
            Box b( { flags } );
            b.start( 0, { vals[d[0]] } );
            for( int k=1; k<=steps; ++k ) b.step( 1, { vals[d[k]] }, { after } );
        }
        int k = 0;
        while( k < digits && ++d[k] == nvals ) d[k++] = 0;
        if( k == digits ) break;
    }
}
static void random( Rng& r ) {
    int nf = r.range( 1, 4 );
    std::vector<unsigned> fl;
    for( int i=0; i<nf; ++i ) fl.push_back( FLAGS[r.below( 6 )] );
    Box b( fl );
    auto val = [&]() { return r.chance( 15 )? 0.: r.chance( 50 )? (double)r.range( -3, 3 ): r.dyadic( 4, 64 ); };
    auto vec = [&]() { std::vector<double> v; for( int i=0; i<nf; ++i ) v.push_back( val() ); return v; };
    int starts = r.range( 1, 2 );
    for( int k=0; k<starts; ++k ) {
        b.start( r.dyadic( 3, 8 ), vec() );
        int n = r.range( 2, 10 );
        for( int i=0; i<n; ++i ) {
            auto z2 = vec();
            // often let a function stay where it is
            for( int j=0; j<nf; ++j ) if( r.chance( 40 ) ) z2[j] = b.x[j]*r.pick( std::vector<double>{ 1, 0.5, 2 } );
            b.step( r.pick( std::vector<double>{ 1, 0.5, 0.125, 3 } ), z2, vec() );
        }
    }
}

int main( int argc, char **argv ) {
    Registrations reg;
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "enum" ) enumerate( std::stoi( a[1] ), std::stoi( a[2] ), std::stoi( a[3] ) );
        else if( a[0] == "random" ) {
            uint64_t seed = std::stoull( a[1] );
            for( int i=0; i<std::stoi( a[2] ); ++i ) {
                Rng r( seed*1000003 + i );
                scenario( "ec-random-" + a[1] + "-" + std::to_string( i ) );
                random( r );
            }
        }
        else {
            int i = 0;
            for( auto& s : readScenarios( a[1] ) ) {
                scenario( "ec-gen-" + std::to_string( i++ ) );
                std::vector<unsigned> fl;
                for( int f : s["flags"].vi() ) fl.push_back( f );
                Box b( fl );
                double t = 0;
                for( auto& o : s["ops"].a ) {
                    std::string op = o["op"].s;
                    if( op == "start" ) { b.start( t, o["v"].vd() ); }
                    else b.step( 1, o["z2"].vd(), o["zr"].vd() );
                    t = b.t + 1;
                }
            }
        }
    } );
}
