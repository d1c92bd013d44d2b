// newton.cpp: runs of Newton's method with scripted and with real components.
// arguments: gen FILE, or: stub|real seed number
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Parameters;
static AlgebraicSolverClassesRegistrator<VD> regs;
typedef ErrorEstimator<VD> E;

static V vec( const std::vector<double>& a ) { V r( a.size() ); for( unsigned i=0; i<a.size(); ++i ) r[i] = a[i]; return r; }
static std::string join( const std::vector<std::string>& v ) { std::string r = "["; for( size_t i=0; i<v.size(); ++i ) r += ( i? ",": "" ) + v[i]; return r + "]"; }
static const char* name( E::Status s ) { return s == E::Converged? "converged": s == E::ContinueIterations? "continue": s == E::Diverged? "diverged": "?"; }

struct Step { E::Status st = E::ContinueIterations; double ratio = 1; bool term = false, adj = false; std::vector<double> dir; };

// what happened since the last observation
struct Log {
    std::vector<std::string> dirs, searches, ests, resets, estresets;
    int adjusted = 0, asked = 0;
    bool adjval = false;
    std::vector<Step> script;
    size_t at = 0;
    Step now() const { return at < script.size()? script[at]: Step(); }
    int made = 0;
    std::vector<std::string> told;
    void clear() { dirs.clear(); searches.clear(); ests.clear(); resets.clear(); estresets.clear(); adjusted = asked = 0; }
};
struct Named { int id = 0; Log *log = nullptr; };
template< class T > int idOf( const T& p ) { auto n = dynamic_cast<const Named*>( p.get() ); return p? n? n->id: -1: 0; }

struct Poly_ : VectorMapping<VD>, Named {
    std::vector<Poly> p;
    unsigned inputSize() const { return p.size(); }
    unsigned outputSize() const { return p.size(); }
    void map( V& dst, const V& x ) const {
        vectorMappingPreObservers( x, this );
        std::vector<double> a;
        for( unsigned i=0; i<x.size(); ++i ) a.push_back( x[i] );
        V r( p.size() );
        for( unsigned i=0; i<p.size(); ++i ) r[i] = evalPoly( p[i], 0, a.data() );
        dst = r;
        vectorMappingPostObservers( x, dst, this );
    }
};
struct Trim : JacobianTrimmer<VD>, Named {
    SparseMatrix trimJacobian( const SparseMatrix& J ) { return J; }
};
template< class Base > struct LogJp : Base, Named {};
template< class Base > struct LogEst : Base, Named {
    void reset( const V& x ) { log->estresets.push_back( jvecd( x ) ); Base::reset( x ); }
    void setCurrentSolution( const V& x, const V& r ) {
        log->ests.push_back( "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( r ) + "}" );
        Base::setCurrentSolution( x, r );
    }
};
struct StubEst0 : E {
    double at = 1, rt = 1;
    Log *l = nullptr;
    void reset( const V& ) {}
    void setCurrentSolution( const V&, const V& ) {}
    Status currentStatus() const { return l->now().st; }
    double absoluteError() const { return 0; }
    double relativeError() const { return 0; }
    double absoluteTolerance() const { return at; }
    void setAbsoluteTolerance( double v ) { at = v; }
    double relativeTolerance() const { return rt; }
    void setRelativeTolerance( double v ) { rt = v; }
    std::string currentStatusMessage() const { return ""; }
};
template< class Base > struct LogDir : Base, Named {
    std::function<void()> before;
    using Base::computeDescentDirection;
    void reset( bool hard ) { log->resets.push_back( hard? "true": "false" ); Base::reset( hard ); }
    void computeDescentDirection( V& dir, const V& x, const V& f, unsigned it ) {
        if( before ) before();
        Base::computeDescentDirection( dir, x, f, it );
        log->dirs.push_back( "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( f ) + ",\"it\":" + std::to_string( it ) + ",\"dir\":" + jvecd( dir ) + "}" );
    }
    void reportSuccess( bool ok ) {
        log->told.push_back( "{\"at\":" + std::to_string( log->made ) + ",\"ok\":" + ( ok? "true": "false" ) + "}" );
        Base::reportSuccess( ok );
    }
};
struct StubDir0 : NewtonDescentDirection<VD> {
    Log *l = nullptr;
    bool help = false;
    void reset( bool ) {}
    bool hardResetMayHelp() const { return help; }
    void computeDescentDirection( V& dir, const V& x, const V&, unsigned ) { auto d = l->now().dir; d.resize( x.size() ); dir = vec( d ); }
};
template< class Base > struct LogLs : Base, Named {
    double lineSearch( const V& dir, const V& x0, const V& f0, V *res = nullptr ) {
        V d = dir, x = x0, f = f0;
        double r = Base::lineSearch( dir, x0, f0, res );
        log->searches.push_back( "{\"x\":" + jvecd( x ) + ",\"f\":" + jvecd( f ) + ",\"dir\":" + jvecd( d ) + ",\"ratio\":" + jd( r ) + ",\"asked\":" + ( res? "true": "false" ) + "}" );
        return r;
    }
};
struct StubLs0 : NewtonLinearSearch<VD> {
    Log *l = nullptr;
    double lineSearch( const V& dir, const V& x0, const V& f0, V *res = nullptr ) {
        double r = l->now().ratio;
        if( r != 0 ) {
            V x( x0.size() );
            for( unsigned i=0; i<x.size(); ++i ) x[i] = x0[i] + r*dir[i];
            V f = this->mapping()->map( x );
            if( res ) *res = f;
        }
        return r;
    }
};
struct StubReg : NewtonRegularizationStrategy<VD>, Named {
    double p = 0;
    double regularizationParameter() const { return p; }
    void setRegularizationParameter( double v ) { p = v; }
    bool adjustRegularizationParameter() {
        bool a = log->adjval;
        ++log->adjusted;
        return a;
    }
};

typedef NewtonSolverInterface<VD> Solver;
struct World {
    Log log;
    std::shared_ptr<Solver> s;
    int ids = 0;
    std::shared_ptr<Poly_> map;
    bool stub;
    int n;
    unsigned limit = 100;
    std::map<std::string,int> have;
    explicit World( bool stub_ ) : stub( stub_ ) {
        s = Factory<Solver>::newInstance( "newton" );
    }
    template< class T > std::shared_ptr<T> fresh() { auto p = std::make_shared<T>(); p->id = ++ids; p->log = &log; return p; }
    template< class I > void put( const char *what, std::shared_ptr<I> p ) {
        have[what] = idOf( p );
        s->setComponent( p );
        Ev( "set" ).s( "what", what ).i( "id", idOf( p ) );
    }
    void mapping( const std::vector<Poly>& p ) {
        map = fresh<Poly_>();
        map->p = p;
        n = p.size();
        std::shared_ptr< VectorMapping<VD> > m = map;
        put( "map", m );
    }
    void jp( Rng& r ) {
        std::shared_ptr< JacobianProvider<VD> > p;
        if( r.chance( 50 ) ) p = fresh< LogJp< DefaultJacobianProvider<VD> > >(); else p = fresh< LogJp< SparseJacobianProvider<VD> > >();
        put( "jp", p );
    }
    void trim( Rng& r ) { std::shared_ptr< JacobianTrimmer<VD> > p = fresh<Trim>(); put( "trim", p ); }
    void est( Rng& r ) {
        std::shared_ptr<E> p;
        if( stub ) { auto q = fresh< LogEst<StubEst0> >(); q->l = &log; p = q; }
        else {
            auto q = fresh< LogEst< SimpleErrorEstimator<VD> > >();
            if( r.chance( 50 ) ) { q->setAbsoluteTolerance( std::ldexp( 1., -r.range( 2, 40 ) ) ); q->setRelativeTolerance( r.chance( 50 )? 100: std::ldexp( 1., -r.range( 2, 30 ) ) ); }
            if( r.chance( 30 ) ) q->setAbsoluteMaxThreshold( 100 );
            if( r.chance( 50 ) ) q->setRelativeMaxThreshold( r.pick( std::vector<double>{ 0, 2, 1e9 } ) );
            p = q;
        }
        put( "est", p );
    }
    void ls( Rng& r ) {
        std::shared_ptr< NewtonLinearSearch<VD> > p;
        if( stub ) { auto q = fresh< LogLs<StubLs0> >(); q->l = &log; p = q; }
        else { auto q = fresh< LogLs< SimpleNewtonLinearSearch<VD> > >(); if( r.chance( 50 ) ) q->setMaxStepTruncations( r.range( 1, 12 ) ); p = q; }
        put( "ls", p );
    }
    template< class T > std::shared_ptr< NewtonDescentDirection<VD> > real() { return fresh< LogDir<T> >(); }
    void ddir( Rng& r, bool help ) {
        std::shared_ptr< NewtonDescentDirection<VD> > p;
        if( stub ) { auto q = fresh< LogDir<StubDir0> >(); q->l = &log; q->help = help; p = q; }
        else switch( r.below( 6 ) ) {
            case 0: p = real< SimpleNewtonDescentDirection<VD> >(); break;
            case 1: p = real< ConstJacobianNewtonDescentDirection<VD> >(); break;
            case 2: p = real< JacobianBroydenUpdateNewtonDescentDirection<VD> >(); break;
            case 3: p = real< JacobianFakeBroydenUpdateNewtonDescentDirection<VD> >(); break;
            case 4: p = real< JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD> >(); break;
            default: p = real< JacobianHartUpdateNewtonDescentDirection<VD> >(); break;
        }
        put( "ddir", p );
        jp( r );
        if( r.chance( 40 ) ) trim( r );
    }
    void reg( Rng& r, bool on ) {
        std::shared_ptr< NewtonRegularizationStrategy<VD> > p;
        if( on ) p = fresh<StubReg>();
        put( "reg", p );
    }
    void all( Rng& r, const std::vector<Poly>& p, bool help, bool regOn ) {
        std::vector<int> order{ 0, 1, 2, 3, 4 };
        for( int i=4; i>0; --i ) std::swap( order[i], order[r.below( i+1 )] );
        for( int k : order ) {
            
            switch( k ) {
            case 0: mapping( p ); break;
            case 1: est( r ); break;
            case 2: ls( r ); break;
            case 3: ddir( r, help ); break;
            default: reg( r, regOn ); break;
            }
        }
    }
    std::string wires() {
        auto ip = s->iterationPerformer();
        auto dd = ip->newtonDescentDirection();
        auto ls = ip->newtonLinearSearch();
        auto jp = dd->jacobianProvider();
        auto rg = s->regularizationStrategy();
        auto tr = jp? jp->jacobianTrimmer(): nullptr;
        std::string t = "{\"maps\":[" + std::to_string( idOf( ip->mapping() ) ) + "," + std::to_string( idOf( dd->mapping() ) ) + "," + std::to_string( idOf( ls->mapping() ) ) + "," +
            std::to_string( jp? idOf( jp->mapping() ): have["map"] ) + "," + std::to_string( tr? idOf( tr->mapping() ): have["map"] ) + "]";
        auto f = [&]( const char *k, int v ) { t += std::string( ",\"" ) + k + "\":" + std::to_string( v ); };
        f( "est", idOf( ip->errorEstimator() ) ); f( "ddir", idOf( dd ) ); f( "ls", idOf( ls ) ); f( "jp", idOf( jp ) ); f( "trim", idOf( tr ) ); f( "reg", idOf( rg ) );
        if( rg ) { f( "regest", idOf( rg->errorEstimator() ) ); f( "regddir", idOf( rg->newtonDescentDirection() ) ); }
        else { f( "regest", have["est"] ); f( "regddir", have["ddir"] ); }
        return t + "}";
    }
    void guess( const V& x, bool hard ) {
        log.clear();
        s->setInitialGuess( x, hard );
        Ev( "guess" ).v( "x", x ).b( "hard", hard ).raw( "resets", join( log.resets ) ).raw( "estresets", join( log.estresets ) ).v( "sol", s->currentSolution() );
        log.clear();
    }
    void limits( Rng& r, unsigned k ) {
        limit = k;
        if( r.chance( 15 ) ) { Parameters q; q["max_iterations"] = k; s->setParameters( q ); } else s->setIterationCountLimit( k );
    }
    bool run( Rng& r, int most ) {
        log.clear();
        log.at = 0;
        log.made = 0;
        log.told.clear();
        std::vector<std::string> iters;
        auto ip = s->iterationPerformer();
        std::string w = wires();
        std::string start = jvecd( s->currentSolution() );
        int lastAdj = 0;
        bool lastVal = false;
        auto h = s->iterationObservers.add( [&]( unsigned it, const Solver *sv ) -> bool {
            Step st = log.now();
            // adjustments made after the previous iteration are known now
            if( !iters.empty() ) { iters.back() += ",\"adjusts\":" + std::to_string( lastAdj = log.adjusted ) + ",\"adj\":" + ( log.adjusted && log.adjval? "true": "false" ) + "}"; log.adjusted = 0; }
            bool term = st.term || (int)iters.size() >= most;
            iters.push_back( "{\"n\":" + std::to_string( it ) + ",\"resets\":" + join( log.resets ) + ",\"estresets\":" + join( log.estresets ) +
                ",\"dirs\":" + join( log.dirs ) + ",\"searches\":" + join( log.searches ) + ",\"ests\":" + join( log.ests ) + ",\"st\":\"" + name( ip->errorEstimator()->currentStatus() ) +
                "\",\"x\":" + jvecd( sv->currentSolution() ) + ",\"f\":" + jvecd( ip->currentResidual() ) + ",\"ratio\":" + jd( ip->currentStepRatio() ) +
                ",\"same\":" + ( sv == s.get()? "true": "false" ) + ",\"term\":" + ( term? "true": "false" ) );
            log.clear();
            log.adjval = st.adj;
            ++log.at;
            ++log.made;
            return term;
        } );
        bool help = ip->newtonDescentDirection()->hardResetMayHelp();
        Solver::Status status = Solver::Terminated;
        try { status = s->run(); }
        catch( std::exception& ) {      // the LU factorizer refuses matrices without a diagonal
            s->iterationObservers.remove( h );
            Ev( "refused" ).raw( "polys", jpolys( map->p ) ).v( "x", s->currentSolution() );
            return false;
        }
        s->iterationObservers.remove( h );
        if( !iters.empty() ) iters.back() += ",\"adjusts\":" + std::to_string( log.adjusted ) + ",\"adj\":" + ( log.adjusted && log.adjval? "true": "false" ) + "}";
        (void)lastVal;
        const char *t = status == Solver::Converged? "converged": status == Solver::Diverged? "diverged": status == Solver::Terminated? "terminated": "limit";
        std::string text = Solver::statusText( status );
        Ev( "run" ).i( "limit", s->iterationCountLimit() ).i( "set", limit ).b( "help", help ).raw( "polys", jpolys( map->p ) ).raw( "wires", w ).raw( "x0", start )
            .raw( "iters", join( iters ) ).raw( "told", join( log.told ) ).s( "status", t ).s( "text", text ).v( "x", s->currentSolution() );
        log.clear();
        return true;
    }
};

static std::vector<Poly> polys( Rng& r, int n, bool hard ) {
    std::vector<Poly> p( n );
    for( int i=0; i<n; ++i ) {
        auto term = [&]( double c, std::vector<int> e ) { if( c != 0 ) { e.resize( n+1 ); p[i].push_back( Term{ c, e } ); } };
        auto unit = [&]( int j, int k = -1 ) { std::vector<int> e( n+1 ); ++e[j+1]; if( k >= 0 ) ++e[k+1]; return e; };
        term( r.dyadic( 2, 4 ), {} );
        term( ( r.chance( 50 )? 1: -1 )*( n + r.dyadic( 1, 4 ) ), unit( i ) );
        for( int j=0; j<n; ++j ) if( j != i && r.chance( 50 ) ) term( r.dyadic( 1, 4 ), unit( j ) );
        if( r.chance( hard? 90: 50 ) ) { int j = r.below( n ), k = r.below( n ); term( r.dyadic( hard? 4: 1, 4 ), unit( j, k ) ); }
    }
    return p;
}
static V point( Rng& r, int n, int lim = 2 ) { V x( n ); for( int i=0; i<n; ++i ) x[i] = r.dyadic( lim, 4 ); return x; }

static void stub( Rng& r ) {
    World w( true );
    int n = r.range( 1, 3 );
    bool help = r.chance( 60 ), reg = r.chance( 40 );
    w.all( r, polys( r, n, true ), help, reg );
    for( int k=r.range( 1, 4 ); k>0; --k ) {
        if( r.chance( 30 ) ) w.est( r );
        if( r.chance( 30 ) ) w.ls( r );
        if( r.chance( 30 ) ) w.ddir( r, r.chance( 60 ) );
        if( r.chance( 30 ) ) w.mapping( polys( r, n, true ) );
        if( r.chance( 20 ) ) w.reg( r, reg = r.chance( 50 ) );
        if( r.chance( 50 ) || k == 4 ) w.limits( r, r.range( 0, 7 ) );
        if( w.limit > 50 ) w.limits( r, 5 );
        w.guess( point( r, n ), r.chance( 50 ) );
        if( r.chance( 10 ) ) w.guess( point( r, n ), r.chance( 50 ) );
        for( int q=r.chance( 20 )? 2: 1; q>0; --q ) {
            w.log.script.clear();
            int cont = r.pick( std::vector<int>{ 20, 60, 90, 100 } );
            for( int i=0; i<2*(int)w.limit; ++i ) {
                Step s;
                s.st = r.chance( cont )? E::ContinueIterations: r.chance( 50 )? E::Converged: E::Diverged;
                s.ratio = r.pick( std::vector<double>{ 1, 1, 0.5, -0.25 } );
                if( r.chance( 5 ) ) s.ratio = 0;
                s.term = r.chance( 4 );
                s.adj = reg && r.chance( 40 );
                for( int j=0; j<n; ++j ) s.dir.push_back( r.dyadic( 2, 2 ) );
                w.log.script.push_back( s );
            }
            w.run( r, 1000 );
        }
    }
}
static void real( Rng& r ) {
    World w( false );
    int n = r.range( 1, 4 );
    bool hard = r.chance( 40 );
    w.all( r, polys( r, n, hard ), false, r.chance( 15 ) );
    for( int k=r.range( 1, 4 ); k>0; --k ) {
        if( r.chance( 20 ) ) w.est( r );
        if( r.chance( 20 ) ) w.ls( r );
        if( r.chance( 20 ) ) w.ddir( r, false );
        if( r.chance( 30 ) ) w.mapping( polys( r, n, hard ) );
        if( r.chance( 50 ) ) w.limits( r, r.range( 1, 12 ) );
        w.guess( point( r, n ), r.chance( 50 ) );
        w.log.script.clear();
        if( w.s->regularizationStrategy() ) for( int i=0; i<20; ++i ) { Step s; s.adj = r.chance( 30 ); w.log.script.push_back( s ); }
        if( !w.run( r, 14 ) ) return;
    }
}
static void gen( const Json& j, Rng& r ) {
    World w( true );
    int n = r.range( 1, 2 );
    w.all( r, polys( r, n, true ), j["help"].b, j["reg"].b );
    w.limits( r, j["limit"].i() );
    w.guess( point( r, n ), r.chance( 50 ) );
    for( auto& o : j["iters"].a ) {
        Step s;
        auto& t = o["st"].s;
        s.st = t == "converged"? E::Converged: t == "diverged"? E::Diverged: E::ContinueIterations;
        s.ratio = o["zero"].b? 0: r.pick( std::vector<double>{ 1, 0.5, -0.25 } );
        s.term = o["term"].b;
        s.adj = o["adj"].b;
        for( int i=0; i<n; ++i ) s.dir.push_back( r.dyadic( 2, 2 ) );
        w.log.script.push_back( s );
    }
    w.run( r, 1000 );
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i ); scenario( "newton-gen-" + std::to_string( i++ ) ); gen( j, r ); }
            return;
        }
        uint64_t seed = std::stoull( a[1] );
        int n = std::stoi( a[2] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9011 + i );
            scenario( "newton-" + a[0] + "-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            if( a[0] == "stub" ) stub( r ); else real( r );
        }
    } );
}
