// jac.cpp: numerical Jacobians, trimmers and Jacobian providers.
// arguments: gen FILE, or: seed number
#include <set>
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Parameters;
static AlgebraicSolverClassesRegistrator<VD> regs;
typedef sparse::SparseMatrix<double> Slow;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > Fast;
typedef std::pair<unsigned,unsigned> Index;

static V vec( const std::vector<double>& a ) { V r( a.size() ); for( unsigned i=0; i<a.size(); ++i ) r[i] = a[i]; return r; }
static std::string join( const std::vector<std::string>& v ) { std::string r = "["; for( size_t i=0; i<v.size(); ++i ) r += ( i? ",": "" ) + v[i]; return r + "]"; }
template< class M > std::string entries( const M& J ) {
    std::vector<std::string> m;
    for( auto& a : J ) m.push_back( "[" + std::to_string( a.first.first ) + "," + std::to_string( a.first.second ) + "," + jd( a.second ) + "]" );
    return join( m );
}
template< class M > std::string shape( const M& J ) { return "[" + std::to_string( J.size().first ) + "," + std::to_string( J.size().second ) + "]"; }
struct Poly_ : VectorMapping<VD> {
    std::vector<Poly> p;
    unsigned in;
    mutable std::vector<std::string> evals;
    unsigned inputSize() const { return in; }
    unsigned outputSize() const { return p.size(); }
    void map( V& dst, const V& x ) const {
        vectorMappingPreObservers( x, this );
        std::vector<double> a;
        for( unsigned i=0; i<x.size(); ++i ) a.push_back( x[i] );
        V r( p.size() );
        for( unsigned i=0; i<p.size(); ++i ) r[i] = evalPoly( p[i], 0, a.data() );
        evals.push_back( "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( r ) + "}" );
        dst = r;
        vectorMappingPostObservers( x, dst, this );
    }
};
typedef std::shared_ptr<Poly_> Map;
static Term power( double c, int j, int k, int n ) { Term t; t.c = c; t.p.resize( n+1 ); t.p[j+1] = k; return t; }
static double nz( Rng& r, double scale, int den ) { double a; do a = r.dyadic( scale, den ); while( a == 0 ); return a; }
static std::set<Index> pattern( Rng& r, unsigned rows, unsigned cols ) {
    std::set<Index> p;
    int dens = r.pick( std::vector<int>{ 0, 10, 30, 60, 100 } );
    bool diag = r.chance( 60 );
    for( unsigned i=0; i<rows; ++i ) for( unsigned j=0; j<cols; ++j ) if( ( diag && i == j ) || r.chance( dens ) ) p.insert( Index( i, j ) );
    return p;
}
static Map mapping( Rng& r, unsigned rows, unsigned cols, const std::set<Index>& pat ) {
    Map m = std::make_shared<Poly_>();
    m->in = cols;
    for( unsigned i=0; i<rows; ++i ) {
        Poly p;
        if( r.chance( 30 ) ) { Term t; t.c = r.dyadic( 2, 4 ); t.p.resize( cols+1 ); p.push_back( t ); }
        for( unsigned j=0; j<cols; ++j ) if( pat.count( Index( i, j ) ) ) {
            if( r.chance( 80 ) ) p.push_back( power( nz( r, 3, 8 ), j, 1, cols ) );
            if( r.chance( 30 ) ) p.push_back( power( nz( r, 1, 4 ), j, r.range( 2, 3 ), cols ) );
            if( r.chance( 15 ) ) { int k = r.below( cols ); if( pat.count( Index( i, k ) ) ) { Term t = power( nz( r, 1, 4 ), j, 1, cols ); t.p[k+1] += 1; p.push_back( t ); } }
        }
        m->p.push_back( p );
    }
    return m;
}
static std::vector<double> point( Rng& r, unsigned n ) { std::vector<double> x; for( unsigned i=0; i<n; ++i ) x.push_back( r.chance( 8 )? 0: r.dyadic( 2, 8 ) ); return x; }
static void tellMap( const Poly_& m, int id ) {
    std::vector<std::string> p;
    for( auto& a : m.p ) p.push_back( jpoly( a ) );
    Ev( "map" ).i( "id", id ).i( "rows", m.p.size() ).i( "cols", m.in ).raw( "p", join( p ) );
}
static void dense( Rng& r ) {
    unsigned n = r.range( 1, 6 );
    auto m = mapping( r, n, n, pattern( r, n, n ) );
    tellMap( *m, 1 );
    for( int k=0; k<2; ++k ) {
        auto x = point( r, n );
        m->evals.clear();
        auto J = computeJacobian( *m, vec( x ) );
        Ev( "dense" ).v( "x", x ).raw( "evals", join( m->evals ) ).raw( "m", entries( J ) ).raw( "size", shape( J ) );
    }
}
static void calculator( Rng& r ) {
    unsigned rows = r.range( 1, 7 ), cols = r.chance( 70 )? rows: r.range( 1, 7 );
    auto pat = pattern( r, rows, cols );
    Slow s( rows, cols );
    auto have = pat;
    // usually the structure of the mapping; sometimes larger, or another one
    if( r.chance( 30 ) ) for( auto& a : pattern( r, rows, cols ) ) have.insert( a );
    if( r.chance( 10 ) ) have = pattern( r, rows, cols );
    for( auto& a : have ) s.at( a ) = r.chance( 10 )? 0: nz( r, 2, 4 );
    Fast J;
    J = s;
    SparseJacobianCalculator<VD> calc( &J );
    Ev( "calculator" ).raw( "m", entries( J ) ).raw( "size", shape( J ) ).i( "required", calc.mappingEvaluationsRequired() );
    for( int k=0; k<3; ++k ) {
        auto m = mapping( r, rows, cols, pat );
        tellMap( *m, k+1 );
        auto x = point( r, cols );
        double h = r.pick( std::vector<double>{ 1e-6, 1./1024, 1./(1<<20), 0.001 } );
        m->evals.clear();
        calc.calculate( *m, vec( x ), h );
        Ev( "calculate" ).v( "x", x ).d( "h", h ).raw( "evals", join( m->evals ) ).raw( "m", entries( J ) );
    }
    if( r.chance( 40 ) ) {
        auto m = mapping( r, rows, cols, pat );
        tellMap( *m, 9 );
        auto x = point( r, cols );
        Fast K;
        K = s;
        m->evals.clear();
        computeSparseJacobian<VD>( K, *m, vec( x ), 1./4096 );
        Ev( "calculate" ).v( "x", x ).d( "h", 1./4096 ).raw( "evals", join( m->evals ) ).raw( "m", entries( K ) );
    }
}
static std::shared_ptr< JacobianTrimmer<VD> > trimmer( const std::string& kind ) {
    return kind == "width"? std::shared_ptr< JacobianTrimmer<VD> >( new JacobianWidthBasedTrimmer<VD> ): std::shared_ptr< JacobianTrimmer<VD> >( new JacobianThresholdBasedTrimmer<VD> );
}
static double parameter( Rng& r, const std::string& kind ) {
    return kind == "width"? r.range( 0, 4 ): r.pick( std::vector<double>{ 0, 0.25, 0.5, 0.75, 1, 2, 0.0625 } );
}
static void setParameter( OptionalParameters& t, const std::string& kind, double par ) {
    Parameters p;
    if( kind == "width" ) p["width"] = (unsigned)par; else p["threshold"] = par;
    t.setParameters( p );
}
static void trim( Rng& r ) {
    std::string kind = r.chance( 50 )? "width": "threshold";
    auto t = Factory< JacobianTrimmer<VD> >::newInstance( kind );
    double par = 0;
    for( int k=0; k<4; ++k ) {
        if( r.chance( k? 40: 85 ) ) { par = parameter( r, kind ); setParameter( *t, kind, par ); }
        unsigned rows = r.range( 0, 6 ), cols = r.chance( 70 )? rows: r.range( 0, 6 );
        Slow s( rows, cols );
        for( auto& a : pattern( r, rows, cols ) ) s.at( a ) = r.chance( 5 )? 0: r.dyadic( 2, 4 );
        auto o = t->trimJacobian( s );
        Ev( "trim" ).s( "kind", kind ).d( "par", par ).raw( "m", entries( s ) ).raw( "size", shape( s ) ).raw( "out", entries( o ) ).raw( "outsize", shape( o ) );
    }
}
template< class Base > struct LogTrim : Base {
    std::vector<std::string> *log;
    Slow trimJacobian( const Slow& J ) {
        auto o = Base::trimJacobian( J );
        log->push_back( "{\"m\":" + entries( J ) + ",\"out\":" + entries( o ) + "}" );
        return o;
    }
};
struct World {
    std::shared_ptr< JacobianProvider<VD> > p;
    Map m[3];
    Map now;
    std::vector<std::string> trims;
    std::shared_ptr< JacobianTrimmer<VD> > t;
    std::string tkind = "none";
    double par = 0;
    unsigned n;
    explicit World( const std::string& kind ) {
        p = Factory< JacobianProvider<VD> >::newInstance( kind );
        Ev( "provider" ).s( "kind", kind );
    }
    void told() { if( t ) Ev( "wired" ).b( "ok", t->mapping() == p->mapping() ); }
    void map( int i ) {
        now = m[i];
        std::shared_ptr< VectorMapping<VD> > v = now;
        p->setMapping( v );
        tellMap( *now, i );
        told();
    }
    void trim( const std::string& kind, double v ) {
        tkind = kind;
        par = v;
        if( kind == "none" ) t.reset();
        else if( kind == "width" ) { auto q = std::make_shared< LogTrim< JacobianWidthBasedTrimmer<VD> > >(); q->log = &trims; t = q; }
        else { auto q = std::make_shared< LogTrim< JacobianThresholdBasedTrimmer<VD> > >(); q->log = &trims; t = q; }
        if( t ) setParameter( *t, kind, par );
        p->setJacobianTrimmer( t );
        Ev( "trimmer" ).s( "kind", kind ).d( "par", par );
        told();
    }
    void tune( double v ) { par = v; setParameter( *t, tkind, v ); Ev( "tune" ).d( "par", v ); }
    void reset() { p->hardReset(); Ev( "reset" ).b( "empty", p->jacobian().empty() ).b( "help", p->hardResetMayHelp() ); }
    void compute( const std::vector<double>& x ) {
        now->evals.clear();
        trims.clear();
        p->computeJacobian( vec( x ) );
        auto& J = p->jacobian();
        Ev( "compute" ).v( "x", x ).raw( "evals", join( now->evals ) ).raw( "trims", join( trims ) ).raw( "m", entries( J ) ).raw( "size", shape( J ) );
    }
    // what the update strategies do to the matrix of a provider
    void poke( Rng& r ) {
        Fast d = p->jacobian();
        for( auto& e : d ) e.second = r.dyadic( 1, 4 );
        if( r.chance( 50 ) ) p->jacobian() += d;
        else for( auto& e : p->jacobian() ) e.second += 1;
    }
};
static void provider( Rng& r ) {
    World w( r.chance( 60 )? "sparse": "default" );
    w.n = r.range( 1, 6 );
    auto pat = pattern( r, w.n, w.n );
    for( int i=0; i<3; ++i ) w.m[i] = mapping( r, w.n, w.n, pat );
    int ops = r.range( 3, 12 );
    if( r.chance( 30 ) ) w.trim( "width", r.range( 0, 3 ) );
    w.map( 0 );
    for( int q=0; q<ops; ++q ) switch( r.below( 8 ) ) {
    case 0: w.map( r.below( 3 ) ); break;
    case 1: w.reset(); break;
    case 2: {
        if( r.chance( 40 ) ) w.trim( "none", 0 );
        else { std::string k = r.chance( 50 )? "width": "threshold"; w.trim( k, parameter( r, k ) ); }
        break;
    }
    case 3: if( w.t ) w.tune( parameter( r, w.tkind ) ); break;
    case 4: if( r.chance( 50 ) ) {       // another size
        w.n = r.range( 1, 6 );
        pat = pattern( r, w.n, w.n );
        for( int i=0; i<3; ++i ) w.m[i] = mapping( r, w.n, w.n, pat );
        w.reset();
        w.map( 0 );
        break;
    }
    default: w.compute( point( r, w.n ) ); if( r.chance( 20 ) ) w.poke( r );
    }
    w.compute( point( r, w.n ) );
}
static void replay( const Json& j, Rng& r ) {
    World w( j["kind"].s );
    w.n = 2 + r.below( 2 );
    auto pat = pattern( r, w.n, w.n );
    for( int i=0; i<3; ++i ) w.m[i] = mapping( r, w.n, w.n, pat );
    w.map( 0 );
    for( auto& o : j["ops"].a ) {
        auto& s = o.s;
        if( s == "map" ) w.map( 1 + r.below( 2 ) );
        else if( s == "reset" ) w.reset();
        else if( s == "none" || s == "width" || s == "threshold" ) w.trim( s, parameter( r, s ) );
        else if( s == "compute" ) w.compute( point( r, w.n ) );
        else if( s == "poke" ) w.poke( r );
    }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i + 3 ); scenario( "jac-gen-" + std::to_string( i++ ) ); replay( j, r ); Ev( "end" ); }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9001 + i );
            scenario( "jac-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            switch( i % 5 ) { case 0: dense( r ); break; case 1: calculator( r ); break; case 2: trim( r ); break; default: provider( r ); }
            Ev( "end" );
        }
    } );
}
