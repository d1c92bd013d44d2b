// descent.cpp: histories of the descent direction strategies.
// arguments: gen FILE, or: seed number
// link: regs_common
#include <set>
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Parameters;
static AlgebraicSolverClassesRegistrator<VD> regs;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > Fast;
typedef std::pair<unsigned,unsigned> Index;

static V vec( const std::vector<double>& a ) { V r( a.size() ); for( unsigned i=0; i<a.size(); ++i ) r[i] = a[i]; return r; }
static std::string join( const std::vector<std::string>& v, const char *q = "" ) { std::string r = "["; for( size_t i=0; i<v.size(); ++i ) r += std::string( i? ",": "" ) + q + v[i] + q; return r + "]"; }

struct Log { std::vector<std::string> order, computed, resets; };
struct Poly_ : VectorMapping<VD> {
    std::vector<Poly> p;
    unsigned inputSize() const { return p.size(); }
    unsigned outputSize() const { return p.size(); }
    V at( const V& x ) const {
        std::vector<double> a;
        for( unsigned i=0; i<x.size(); ++i ) a.push_back( x[i] );
        V r( p.size() );
        for( unsigned i=0; i<p.size(); ++i ) r[i] = evalPoly( p[i], 0, a.data() );
        return r;
    }
    void map( V& dst, const V& x ) const {
        vectorMappingPreObservers( x, this );
        dst = at( x );
        vectorMappingPostObservers( x, dst, this );
    }
};
// a provider that gives the matrices it is told to
struct Scripted : JacobianProvider<VD> {
    Fast J;
    std::map<Index,double> next;
    unsigned n = 0;
    void hardReset() { J = Fast(); }
    bool hardResetMayHelp() const { return true; }
    void computeJacobian( const V& ) {
        sparse::SparseMatrix<double> m;
        for( auto& a : next ) m.at( a.first ) = a.second;
        m.resize( n, n );
        J = m;
    }
    Fast& jacobian() { return J; }
};
template< class Base > struct LogJp : Base {
    Log *log = nullptr;
    void hardReset() { log->resets.push_back( "hard" ); Base::hardReset(); }
    void computeJacobian( const V& x ) {
        Base::computeJacobian( x );
        log->order.push_back( "compute" );
        std::vector<std::string> m;
        for( auto& a : Base::jacobian() )
            m.push_back( "[" + std::to_string( a.first.first ) + "," + std::to_string( a.first.second ) + "," + jd( a.second ) + "]" );
        log->computed.push_back( "{\"x\":" + jvecd( x ) + ",\"m\":" + join( m ) + "}" );
    }
};
template< class M > std::string dense( const M& J, unsigned n ) {
    std::vector< std::vector<double> > a( n, std::vector<double>( n ) );
    for( auto& e : J ) if( e.first.first < n && e.first.second < n ) a[e.first.first][e.first.second] += e.second;
    std::vector<std::string> r;
    for( auto& v : a ) r.push_back( jvecd( v ) );
    return join( r );
}
struct World {
    Log log;
    std::shared_ptr< NewtonDescentDirection<VD> > d;
    std::shared_ptr< Poly_ > map;
    Scripted *script = nullptr;
    unsigned n;
    bool watch;
    std::string seen;       // what the last direction's observers saw
    std::string post, obsx;
    World( const std::string& kind, unsigned n_, bool watch_ ) : n( n_ ), watch( watch_ ) {
        d = Factory< NewtonDescentDirection<VD> >::newInstance( kind );
        d->ddirPreObservers.add( [this] { log.order.push_back( "pre" ); } );
        d->ddirPostObservers.add( [this]( const V& v ) { log.order.push_back( "post" ); post = jvecd( v ); } );
        d->jacobianRefreshObservers.add( [this]( bool start ) { log.order.push_back( start? "start": "stop" ); } );
        if( watch ) d->jacobianObservers.add( [this]( const Fast& J, const V& x, const V& f ) {
            log.order.push_back( "matrix" );
            seen = dense( J, n );
            obsx = "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( f ) + "}";
        } );
        Ev( "strategy" ).s( "kind", kind ).i( "n", n ).b( "watch", watch );
    }
    void reset( bool hard ) {
        log = Log();
        d->reset( hard );
        Ev( "reset" ).b( "hard", hard ).raw( "told", join( log.resets, "\"" ) ).i( "computed", log.computed.size() );
    }
    void report( bool ok ) { d->reportSuccess( ok ); Ev( "report" ).b( "ok", ok ); }
    bool step( const std::vector<double>& x, const std::vector<double>& f, int it ) {
        log = Log();
        seen = "[]"; post = "[]"; obsx = "{\"x\":[],\"f\":[]}";
        bool thrown = false;
        V r( n );
        const V a = vec( x ), b = vec( f );
        try { d->computeDescentDirection( r, a, b, it ); }
        catch( std::exception& ) { thrown = true; }
        Ev e( "dir" );
        e.v( "x", x ).v( "f", f ).i( "it", it ).raw( "computed", join( log.computed ) ).raw( "order", join( log.order, "\"" ) );
        e.raw( "seen", seen ).raw( "obs", obsx ).raw( "post", post ).v( "dir", r ).b( "thrown", thrown );
        return !thrown;
    }
};
static Term power( double c, int j, int k, int n ) { Term t; t.c = c; t.p.resize( n+1 ); t.p[j+1] = k; return t; }
static double nz( Rng& r, double scale, int den ) { double a; do a = r.dyadic( scale, den ); while( a == 0 ); return a; }
static void random( Rng& r, const std::string& kind, const std::vector<std::string> *ops = nullptr ) {
    unsigned n = ops? r.range( 1, 3 ): r.range( 1, 5 );
    World w( kind, n, r.chance( 50 ) );
    int how = r.below( 3 );     // scripted matrices; default provider; sparse provider
    std::shared_ptr< JacobianProvider<VD> > jp;
    if( how == 0 ) { auto p = std::make_shared< LogJp<Scripted> >(); p->log = &w.log; p->n = n; w.script = p.get(); jp = p; }
    else if( how == 1 ) { auto p = std::make_shared< LogJp< DefaultJacobianProvider<VD> > >(); p->log = &w.log; jp = p; }
    else { auto p = std::make_shared< LogJp< SparseJacobianProvider<VD> > >(); p->log = &w.log; jp = p; }
    // a system with a dominant diagonal
    std::set<Index> pat;
    int dens = r.pick( std::vector<int>{ 20, 50, 100 } );
    for( unsigned i=0; i<n; ++i ) for( unsigned j=0; j<n; ++j ) if( i == j || r.chance( dens ) ) pat.insert( Index( i, j ) );
    w.map = std::make_shared<Poly_>();
    std::vector<std::vector<double>> A( n, std::vector<double>( n ) );
    for( unsigned i=0; i<n; ++i ) {
        Poly p;
        for( unsigned j=0; j<n; ++j ) if( pat.count( Index( i, j ) ) ) {
            A[i][j] = i == j? ( r.chance( 50 )? 1: -1 )*( n + 1 + r.below( 16 )/8. ): nz( r, 1, 8 );
            p.push_back( power( A[i][j], j, 1, n ) );
            if( r.chance( 30 ) ) p.push_back( power( r.dyadic( 1, 8 )/8, j, 2, n ) );
        }
        w.map->p.push_back( p );
    }
    std::shared_ptr< VectorMapping<VD> > m = w.map;
    if( r.chance( 50 ) ) { w.d->setMapping( m ); w.d->setJacobianProvider( jp ); }
    else { w.d->setJacobianProvider( jp ); w.d->setMapping( m ); }
    int lazy = 10;
    if( kind == "lazy-fake-broyden" && ( ops || r.chance( 70 ) ) ) {
        lazy = r.below( ops? 2: 4 );
        Parameters ps; ps["lazy_iterations"] = lazy;
        w.d->setParameters( ps );
        Ev( "lazy" ).i( "n", lazy );
    }
    std::vector<double> x;
    auto place = [&] { for( unsigned i=0; i<n; ++i ) x[i] = r.dyadic( 2, 8 ); };
    auto dir = [&]( int it ) {
        if( w.script ) {
            w.script->next.clear();
            for( auto& a : pat ) w.script->next[a] = A[a.first][a.second] + ( r.chance( 40 )? r.dyadic( 1, 8 )/4: 0 );
        }
        std::vector<double> f;
        auto v = w.map->at( vec( x ) );
        for( unsigned i=0; i<n; ++i ) f.push_back( v[i] + ( r.chance( 15 )? r.dyadic( 1, 8 )/8: 0 ) );
        bool ok = w.step( x, f, it );
        for( unsigned i=0; i<n; ++i ) x[i] += nz( r, 1, 8 );
        return ok;
    };
    x.resize( n );
    place();
    if( ops ) {
        w.reset( true );
        int it = 0;
        for( auto& o : *ops ) {
            if( o == "dir" ) { if( !dir( it++ ) ) return; }
            else if( o == "hard" || o == "soft" ) { w.reset( o == "hard" ); it = 0; if( r.chance( 20 ) ) place(); }
            else w.report( o == "ok" );
        }
        return;
    }
    int runs = r.range( 1, 5 );
    for( int k=0; k<runs; ++k ) {
        w.reset( r.chance( k? 25: 50 ) );
        int steps = r.range( k == 0? 1: 0, 5 );
        if( r.chance( 30 ) ) place();
        for( int q=0; q<steps; ++q ) {
            if( !dir( q ) ) return;
            if( r.chance( 7 ) ) { w.reset( r.chance( 50 ) ); q = -1; if( r.chance( 50 ) ) break; }
        }
        if( r.chance( 75 ) ) w.report( r.chance( 70 ) );
    }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) {
                std::vector<std::string> ops;
                for( auto& o : j["ops"].a ) ops.push_back( o.s );
                Rng r( i + 5 );
                scenario( "descent-gen-" + std::to_string( i++ ) );
                random( r, j["kind"].s, &ops );
                Ev( "end" );
            }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        const std::vector<std::string> kinds = { "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "lazy-fake-broyden" };
        for( int i=0; i<n; ++i ) {
            Rng r( seed*7013 + i );
            scenario( "descent-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r, kinds[i % kinds.size()] );
            Ev( "end" );
        }
    } );
}
