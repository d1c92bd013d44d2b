// search.cpp: the line search and the error estimator of Newton's method.
// arguments: gen FILE, or: seed number
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/SimpleNewtonLinearSearch.h"
#include "ode_num_int/alg/SimpleErrorEstimator.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Parameters;

static V vec( const std::vector<double>& a ) { V r( a.size() ); for( unsigned i=0; i<a.size(); ++i ) r[i] = a[i]; return r; }
// returns scripted values, then polynomial-ish ones
struct Script : VectorMapping<VD> {
    unsigned n = 1;
    std::function< std::vector<double>( int, const V& ) > f;
    mutable std::vector<std::string> calls;
    unsigned inputSize() const { return n; }
    unsigned outputSize() const { return n; }
    void map( V& dst, const V& x ) const {
        vectorMappingPreObservers( x, this );
        V r = vec( f( calls.size(), x ) );
        dst = r;
        calls.push_back( "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( r ) + "}" );
        vectorMappingPostObservers( x, dst, this );
    }
};
static std::string join( const std::vector<std::string>& v ) { std::string r = "["; for( size_t i=0; i<v.size(); ++i ) r += ( i? ",": "" ) + v[i]; return r + "]"; }
static std::string bits( const V& a ) { return jvecd( a ); }

static void search( SimpleNewtonLinearSearch<VD>& ls, int max, const V& x0, const V& dir, const V& f0, bool asked,
                    std::function< std::vector<double>( int, const V& ) > f ) {
    auto m = std::make_shared<Script>();
    m->n = f0.size();
    m->f = f;
    ls.setMapping( m );
    if( max != 10 || ls.maxStepTruncations() != 10 ) ls.setMaxStepTruncations( max );
    std::vector<std::string> told;
    auto h = ls.lineSearchObservers.add( [&]( unsigned it, double a, const V& d, const V& x, const V& f0_, const V& ff ) {
        told.push_back( "{\"it\":" + std::to_string( it ) + ",\"ratio\":" + jd( a ) + ",\"same\":" +
            ( bits( d ) == bits( dir ) && bits( x ) == bits( x0 ) && bits( f0_ ) == bits( f0 )? "true": "false" ) + ",\"f\":" + jvecd( ff ) + "}" );
    } );
    V res0 = vec( { 77, 78 } ), res = res0;
    V a = x0, b = dir, c = f0;
    double r = asked? ls.lineSearch( b, a, c, &res ): ls.lineSearch( b, a, c );
    ls.lineSearchObservers.remove( h );
    Ev( "search" ).i( "max", ls.maxStepTruncations() ).v( "x0", a ).v( "dir", b ).v( "f0", c ).raw( "trials", join( m->calls ) ).raw( "told", join( told ) )
        .d( "ratio", r ).b( "asked", asked ).v( "res", res ).v( "res0", res0 );
}

struct Est {
    SimpleErrorEstimator<VD> e;
    void status( Ev& v ) {
        typedef ErrorEstimator<VD> E;
        const char *t[] = { "converged", "continue", "diverged" };
        auto s = e.currentStatus();
        std::string m = e.currentStatusMessage(), found = "none";
        for( auto *x : t ) if( m.find( x ) != std::string::npos ) found = found == "none"? x: "several";
        v.d( "abs", e.absoluteError() ).d( "rel", e.relativeError() ).s( "status", s == E::Converged? t[0]: s == E::ContinueIterations? t[1]: s == E::Diverged? t[2]: "?" ).s( "text", found );
    }
    void reset( const V& x ) { e.reset( x ); Ev v( "est-reset" ); v.v( "x", x ); status( v ); }
    void set( const V& x, const V& res ) {
        std::vector<std::string> told;
        auto h = e.errorObservers.add( [&]( const V& a, const V& b, const ErrorEstimator<VD> *p ) {
            told.push_back( "{\"x\":" + jvecd( a ) + ",\"res\":" + jvecd( b ) + ",\"abs\":" + jd( p->absoluteError() ) + ",\"rel\":" + jd( p->relativeError() ) + "}" );
        } );
        e.setCurrentSolution( x, res );
        e.errorObservers.remove( h );
        Ev v( "est-set" );
        v.v( "x", x ).v( "res", res ).raw( "told", join( told ) );
        status( v );
    }
    void param( const std::map<std::string,double>& p, bool setters ) {
        std::map<std::string,std::string> name{ { "at", "abs_tol" }, { "rt", "rel_tol" }, { "am", "abs_max_threshold" }, { "rm", "rel_max_threshold" } };
        if( setters ) for( auto& k : p ) {
            if( k.first == "at" ) e.setAbsoluteTolerance( k.second );
            if( k.first == "rt" ) e.setRelativeTolerance( k.second );
            if( k.first == "am" ) e.setAbsoluteMaxThreshold( k.second );
            if( k.first == "rm" ) e.setRelativeMaxThreshold( k.second );
        }
        else { Parameters q; for( auto& k : p ) q[name[k.first]] = k.second; e.setParameters( q ); }
        std::string s = "{\"none\":0";
        for( auto& k : p ) s += ",\"" + k.first + "\":" + jd( k.second );
        static int count = 0;
        auto q = count++ % 8 == 0 || !setters? e.parameters(): Parameters();
        Ev v( "est-param" );
        v.raw( "set", s + "}" );
        auto close = []( double a, double b ) { return a == b || std::fabs( a-b ) <= 1e-14*std::fabs( b ); };
        bool same = q.empty() || ( close( q["abs_tol"].value<double>(), e.absoluteTolerance() ) && close( q["rel_tol"].value<double>(), e.relativeTolerance() ) &&
                    close( q["abs_max_threshold"].value<double>(), e.absoluteMaxThreshold() ) && close( q["rel_max_threshold"].value<double>(), e.relativeMaxThreshold() ) );
        v.d( "at", same? e.absoluteTolerance(): NAN ).d( "rt", e.relativeTolerance() ).d( "am", e.absoluteMaxThreshold() ).d( "rm", e.relativeMaxThreshold() );
        status( v );
    }
};

static V rnd( Rng& r, int n, int lim = 3, int den = 4 ) { V v( n ); for( int i=0; i<n; ++i ) v[i] = r.dyadic( lim, den ); return v; }
static std::vector<double> level( const std::string& s, Rng& r ) {
    std::vector<double> v( 4 );
    if( s == "nan" ) { v[0] = r.chance( 50 )? NAN: INFINITY; if( r.chance( 50 ) ) { v[1] = 1; } }
    else if( s == "3" ) v = { 1, 1, 1, 0 };
    else if( s == "4" ) v = { 2, 0, 0, 0 };
    else if( s == "5" ) v = { 2, 1, 0, 0 };
    else if( s == "7" ) v = { 2, 1, 1, 1 };
    for( int i=3; i>0; --i ) std::swap( v[i], v[r.below( i+1 )] );
    for( auto& a : v ) if( r.chance( 50 ) ) a = -a;
    return v;
}
static void random( Rng& r ) {
    SimpleNewtonLinearSearch<VD> ls;
    bool deflt = r.chance( 30 );
    for( int k=r.range( 1, 4 ); k>0; --k ) {
        int n = r.range( 1, 4 ), max = deflt? 10: r.range( 0, 14 );
        V x0 = rnd( r, n ), dir = rnd( r, n ), f0( n );
        int what = r.below( 5 );
        if( what == 0 ) {               // a polynomial with any direction
            std::vector<double> a, b, c;
            for( int i=0; i<n*3; ++i ) { a.push_back( r.dyadic( 2, 4 ) ); b.push_back( r.dyadic( 2, 4 ) ); c.push_back( r.dyadic( 1, 4 ) ); }
            auto f = [=]( int, const V& x ) { std::vector<double> y( n ); for( int i=0; i<n; ++i ) y[i] = a[i] + b[i]*x[i] + c[i]*x[i]*x[(i+1)%n]; return y; };
            search( ls, max, x0, dir, vec( f( 0, x0 ) ), r.chance( 80 ), f );
        }
        else if( what == 1 ) {          // a real function with a thin region of decrease
            double a = r.uniform( -3, 3 ), w = std::ldexp( 1., -r.range( 0, 9 ) );
            auto f = [=]( int, const V& x ) { std::vector<double> y( n ); double q = ( x[0]-a )/w; y[0] = 1 - std::floor( 1024*std::exp( -q*q )*0.5*std::fabs( std::sin( 10*a ) ) )/1024; return y; };
            for( int i=0; i<n; ++i ) { x0[i] = r.uniform( -1, 1 ); dir[i] = r.uniform( -1, 1 ); }
            search( ls, max, x0, dir, vec( f( 0, x0 ) ), r.chance( 80 ), f );
        }
        else {                          // levels
            n = 4;
            x0 = rnd( r, n ), dir = rnd( r, n );
            std::vector<std::string> lv{ "nan", "0", "3", "4", "4", "5", "5", "7", "7", "7", "7", "7" };
            int cut = r.range( 0, (int)lv.size()-3 );
            auto seq = std::vector< std::vector<double> >();
            for( int i=0; i<2*max+2; ++i ) seq.push_back( level( lv[r.chance( 60 )? r.range( 7, 11 ): r.range( cut, 11 )], r ) );
            if( r.chance( 5 ) ) for( auto& v : seq ) for( auto& a : v ) a *= std::ldexp( 1., -500 );    // squares below the range
            double sc = r.chance( 20 )? std::ldexp( 1., r.range( -100, 100 ) ): 1;
            for( auto& v : seq ) for( auto& a : v ) a *= sc;
            auto f0v = r.chance( 5 )? std::vector<double>( 4 ): level( "5", r );
            for( auto& a : f0v ) a *= sc;
            search( ls, max, x0, dir, vec( f0v ), r.chance( 80 ), [=]( int i, const V& ) { return i < (int)seq.size()? seq[i]: seq[0]; } );
        }
    }
    Est e;
    int n = r.range( 1, 4 );
    V x = rnd( r, n ), y;
    auto some = [&]() -> double { return r.chance( 25 )? ( r.chance( 50 )? 0: -1 ): r.chance( 50 )? std::ldexp( 1., r.range( -20, 6 ) ): r.range( 1, 20 ); };
    for( int k=r.range( 3, 12 ); k>0; --k ) {
        int what = r.below( 8 );
        if( what == 0 || k == 12 ) {
            n = r.range( 1, 4 ); x = rnd( r, n );
            if( r.chance( 15 ) ) for( int i=0; i<n; ++i ) x[i] = 0;
            e.reset( x );
            y = x;
        }
        else if( what <= 2 ) {
            std::map<std::string,double> p;
            for( auto s : { "at", "rt", "am", "rm" } ) if( r.chance( 40 ) ) p[s] = some();
            e.param( p, r.chance( 90 ) );
        }
        else {
            if( y.size() != n ) { e.reset( x ); y = x; }
            V res = rnd( r, n, 20, 1 );
            double sc = std::ldexp( 1., r.pick( std::vector<int>{ 0, 0, -3, -20, -25, 60 } ) );
            for( int i=0; i<n; ++i ) { res[i] *= sc; }
            x = y;
            int q = r.below( 4 );
            for( int i=0; i<n; ++i )
                if( q == 0 ) x[i] = r.dyadic( 20, 2 );
                else if( q == 1 ) x[i] += r.dyadic( 4, 1 )*std::ldexp( 1., -20 );
                else if( q == 2 ) x[i] *= r.pick( std::vector<double>{ 1, -9, 11, 2 } );
                else x[i] += r.uniform( -1, 1 )*std::ldexp( 1., -r.range( 0, 30 ) );
            // boundaries of the rules: the error exactly at the tolerance or threshold
            if( r.chance( 30 ) ) {
                std::map<std::string,double> p;
                double a = 0; for( int i=0; i<n; ++i ) a = std::max( a, std::fabs( res[i] ) );
                p[r.chance( 50 )? "at": "am"] = a;
                double d = 0, m = 0; for( int i=0; i<n; ++i ) { d = std::max( d, std::fabs( x[i]-y[i] ) ); m = std::max( m, std::fabs( y[i] ) ); }
                if( r.chance( 60 ) ) p[r.chance( 50 )? "rt": "rm"] = m > 0? d/m: 0;
                else if( r.chance( 50 ) ) p["rt"] = 100;
                e.param( p, r.chance( 90 ) );
            }
            e.set( x, res );
            y = x;
        }
    }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            scenario( "search-gen" );
            SimpleNewtonLinearSearch<VD> ls;
            for( auto& j : readScenarios( a[1] ) ) {
                Rng r( i++ );
                std::vector< std::vector<double> > seq;
                for( auto& s : j["ns"].a ) seq.push_back( level( s.s, r ) );
                V x0 = rnd( r, 4 ), dir = rnd( r, 4 );
                search( ls, j["max"].i(), x0, dir, vec( level( "5", r ) ), r.chance( 80 ), [&]( int k, const V& ) { return k < (int)seq.size()? seq[k]: std::vector<double>( 4, 9. ); } );
            }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*7013 + i );
            scenario( "search-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
        }
    } );
}
