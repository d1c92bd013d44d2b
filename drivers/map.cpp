// map.cpp: composed vector mappings.
// arguments: gen FILE, or: seed number
#include <set>
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/computeJacobian.h"
#include "ode_num_int/alg/MappingNormalizer.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/DiagonalMapping.h"
#include "ode_num_int/ode/interfaces/OdeRhsVectorMapping.h"
#include "ode_num_int/ode/OdeStepMappingEuler.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Parameters;
typedef std::vector<double> D;
typedef std::vector<unsigned> U;

static V vec( const D& a ) { V r( a.size() ); for( unsigned i=0; i<a.size(); ++i ) r[i] = a[i]; return r; }
static D arr( const V& a ) { D r; for( unsigned i=0; i<a.size(); ++i ) r.push_back( a[i] ); return r; }
static std::string join( const std::vector<std::string>& v ) { std::string r = "["; for( size_t i=0; i<v.size(); ++i ) r += ( i? ",": "" ) + v[i]; return r + "]"; }
static D evalAll( const std::vector<Poly>& p, double t, const D& x ) { D r; for( auto& a : p ) r.push_back( evalPoly( a, t, x.data() ) ); return r; }
static std::vector<std::string> *args;

struct Poly_ : VectorMapping<VD> {
    std::vector<Poly> p;
    unsigned in = 0;
    U ins, outs;
    unsigned inputSize() const { return in; }
    unsigned outputSize() const { return p.size(); }
    void map( V& dst, const V& x ) const {
        args->push_back( jvecd( x ) );
        dst = vec( evalAll( p, 0, arr( x ) ) );
    }
    U inputIds() const { return ins; }
    U outputIds() const { return outs; }
};
struct Rhs_ : OdeRhs<VD> {
    std::vector<Poly> f;
    unsigned nd = 0, n1 = 0;
    U ids;
    std::string className() const { return "rhs_"; }
    unsigned secondOrderVarCount() const { return nd; }
    unsigned firstOrderVarCount() const { return n1; }
    void rhs( V& dst, double t, const V& x ) const { dst = vec( evalAll( f, t, arr( x ) ) ); }
    U varIds() const { return ids; }
};
struct Layer {
    std::shared_ptr< MappingNormalizer<VD> > norm;
    std::shared_ptr< VectorNarrowingMapping<VD> > narrow;
    std::shared_ptr< VectorReorderingMapping<VD> > reorder;
    D d, st;
    U din, dout, iord, oord;
    std::shared_ptr< VectorMapping<VD> > m() const {
        if( norm ) return norm;
        if( narrow ) return narrow;
        return reorder;
    }
    std::string json() const {
        if( norm ) return "{\"k\":\"norm\",\"d\":" + jvecd( d ) + "}";
        if( narrow ) return "{\"k\":\"narrow\",\"din\":" + jveci( din ) + ",\"dout\":" + jveci( dout ) + ",\"st\":" + jvecd( st ) + "}";
        return "{\"k\":\"reorder\",\"iord\":" + jveci( iord ) + ",\"oord\":" + jveci( oord ) + "}";
    }
    void apply( bool in = true, bool out = true ) {
        if( norm ) norm->setDiagonalMapping( std::make_shared< DiagonalMapping<VD> >( vec( d ) ) );
        else if( narrow ) { if( in ) narrow->setInputNarrowing( din, vec( st ) ); if( out ) narrow->setOutputNarrowing( dout ); }
        else { if( in ) reorder->setInputOrdering( iord ); if( out ) reorder->setOutputOrdering( oord ); }
    }
};
struct World {
    std::vector<std::string> log;
    std::shared_ptr< VectorMapping<VD> > base;
    std::shared_ptr< Poly_ > poly;
    std::shared_ptr< Rhs_ > ode;
    std::shared_ptr< OdeRhsVectorMapping<VD> > rhs;
    std::shared_ptr< OdeStepMappingEuler<VD> > euler;
    std::shared_ptr< DiagonalMapping<VD> > diag;
    std::vector< std::shared_ptr< VectorBijectiveMapping<VD> > > inverses;
    D d;
    int inv = 0;
    double t = 0, h = 0.1, alpha = 1;
    D x0;
    std::vector<Layer> ys;
    World() { args = &log; }
    unsigned n() const { return 2*ode->nd + ode->n1; }
    std::shared_ptr< VectorMapping<VD> > top() const { return ys.empty()? base: ys.back().m(); }
    void tellBase() {
        std::string j;
        if( poly ) j = "{\"k\":\"poly\",\"p\":" + jpolys( poly->p ) + ",\"cols\":" + std::to_string( poly->in ) + ",\"ins\":" + jveci( poly->ins ) + ",\"outs\":" + jveci( poly->outs ) + "}";
        else if( diag ) j = "{\"k\":\"diag\",\"d\":" + jvecd( d ) + ",\"inv\":" + std::to_string( inv ) + "}";
        else {
            j = "{\"f\":" + jpolys( ode->f ) + ",\"nd\":" + std::to_string( ode->nd ) + ",\"n1\":" + std::to_string( ode->n1 ) + ",\"ins\":" + jveci( ode->ids ) + ",\"t\":" + jd( t );
            j += rhs? ",\"k\":\"rhs\"}": ",\"k\":\"euler\",\"h\":" + jd( h ) + ",\"alpha\":" + jd( alpha ) + ",\"x0\":" + jvecd( x0 ) + "}";
        }
        Ev( "base" ).raw( "b", j );
    }
    void setBase( const std::shared_ptr< VectorMapping<VD> >& b ) {
        base = b;
        if( !ys.empty() ) {
            if( ys[0].norm ) ys[0].norm->setMapping( b );
            else if( ys[0].narrow ) ys[0].narrow->setMapping( b );
            else ys[0].reorder->setMapping( b );
        }
    }
    void setDiag( const D& d_, int inv_ ) {
        d = d_; inv = inv_;
        inverses.clear();
        diag = std::make_shared< DiagonalMapping<VD> >( vec( d ) );
        std::shared_ptr< VectorBijectiveMapping<VD> > m = diag;
        for( int i=0; i<inv; ++i ) { inverses.push_back( m ); m = std::make_shared< VectorInverseMapping<VD> >( m->inv() ); }
        inverses.push_back( m );
        setBase( m );
        tellBase();
    }
    void push( const Layer& y_ ) {
        Layer y = y_;
        auto b = top();
        if( y.norm ) y.norm->setMapping( b );
        else if( y.narrow ) y.narrow->setMapping( b );
        else y.reorder->setMapping( b );
        y.apply();
        ys.push_back( y );
        Ev( "push" ).raw( "y", y.json() );
    }
    void config( unsigned i, bool in, bool out ) { ys[i].apply( in, out ); Ev( "config" ).i( "i", i ).raw( "y", ys[i].json() ); }
    void read( unsigned i ) {
        auto& y = ys[i];
        if( y.narrow ) Ev( "readnarrow" ).i( "i", i ).vi( "din", y.narrow->disabledInputIndices() ).vi( "dout", y.narrow->disabledOutputIndices() ).v( "st", arr( y.narrow->stateForInputNarrowing() ) );
        else if( y.reorder ) Ev( "readorder" ).i( "i", i ).vi( "iord", y.reorder->inputOrdering() ).vi( "oord", y.reorder->outputOrdering() );
    }
    void map( const D& x, int how ) {
        auto m = top();
        log.clear();
        V r;
        const V a = vec( x );
        if( how == 0 ) r = m->map( a );
        else if( how == 1 ) r = ( *m )( a );
        else if( how == 2 ) m->map( r, a );
        else if( how == 3 ) { r = V( m->outputSize() ); m->map( r, a ); }
        else { r = V( m->outputSize() + 2 ); for( unsigned i=0; i<r.size(); ++i ) r[i] = 7; m->map( r, a ); }
        Ev( "map" ).v( "x", x ).v( "v", r ).raw( "args", join( log ) ).vi( "ins", m->inputIds() ).vi( "outs", m->outputIds() )
            .i( "isize", m->inputSize() ).i( "osize", m->outputSize() ).v( "after", arr( a ) );
    }
    void part( unsigned i, int op, Rng& r ) {
        auto& y = ys[i];
        std::string o;
        D x, v;
        bool ref = r.chance( 50 );
        auto inner = i? ys[i-1].m(): base;
        auto gen = [&]( unsigned n ) { x.clear(); for( unsigned k=0; k<n; ++k ) x.push_back( r.dyadic( 4, 8 ) ); };
        V dst( r.below( 3 ) );
        if( y.narrow ) {
            auto& m = *y.narrow;
            if( op == 0 ) { o = "narrowIn"; gen( inner->inputSize() ); if( ref ) { m.narrowInput( dst, vec( x ) ); v = arr( dst ); } else v = arr( m.narrowInput( vec( x ) ) ); }
            else if( op == 1 ) { o = "widenIn"; gen( m.inputSize() ); if( ref ) { m.widenInput( dst, vec( x ) ); v = arr( dst ); } else v = arr( m.widenInput( vec( x ) ) ); }
            else { o = "narrowOut"; gen( inner->outputSize() ); if( ref ) { m.narrowOutput( dst, vec( x ) ); v = arr( dst ); } else v = arr( m.narrowOutput( vec( x ) ) ); }
        }
        else if( y.reorder ) {
            auto& m = *y.reorder;
            bool plain = r.chance( 40 );    // another container
            gen( op < 2? inner->inputSize(): inner->outputSize() );
            D u;
            V vx = vec( x );
            switch( op ) {
            case 0: o = "orderIn"; if( plain ) { if( ref ) m.orderInput( u, x ); else u = m.orderInput( x ); } else if( ref ) m.orderInput( dst, vx ); else dst = m.orderInput( vx ); break;
            case 1: o = "unorderIn"; if( plain ) { if( ref ) m.unorderInput( u, x ); else u = m.unorderInput( x ); } else if( ref ) m.unorderInput( dst, vx ); else dst = m.unorderInput( vx ); break;
            case 2: o = "orderOut"; if( plain ) { if( ref ) m.orderOutput( u, x ); else u = m.orderOutput( x ); } else if( ref ) m.orderOutput( dst, vx ); else dst = m.orderOutput( vx ); break;
            default: o = "unorderOut"; if( plain ) { if( ref ) m.unorderOutput( u, x ); else u = m.unorderOutput( x ); } else if( ref ) m.unorderOutput( dst, vx ); else dst = m.unorderOutput( vx );
            }
            v = plain? u: arr( dst );
        }
        else return;
        Ev( "part" ).i( "i", i ).s( "op", o ).v( "x", x ).v( "v", v );
    }
    void normalize( unsigned i, const D& x ) {
        auto& y = ys[i];
        bool thrown = false;
        try { y.norm->normalize( vec( x ) ); } catch( std::exception& ) { thrown = true; }
        auto n = y.norm->inputSize();
        D now = arr( y.norm->diagonalMapping()->VectorMapping<VD>::map( vec( D( n, 1. ) ) ) );
        y.d = now;
        Ev( "normalize" ).i( "i", i ).v( "x", x ).b( "thrown", thrown ).v( "d", now );
    }
    void refuse( unsigned i, bool in, const U& idx ) {
        bool thrown = false;
        try { if( in ) ys[i].narrow->setInputNarrowing( idx, V() ); else ys[i].narrow->setOutputNarrowing( idx ); } catch( std::exception& ) { thrown = true; }
        Ev( "refuse" ).b( "thrown", thrown );
    }
};
static Term power( double c, int j, int k, int n ) { Term t; t.c = c; t.p.resize( n+1 ); if( j >= 0 ) t.p[j+1] = k; return t; }
static D point( Rng& r, unsigned n ) { D x; for( unsigned i=0; i<n; ++i ) x.push_back( r.dyadic( 4, 8 ) ); return x; }
static std::vector<Poly> polys( Rng& r, unsigned rows, unsigned cols, bool time ) {
    std::vector<Poly> res;
    for( unsigned i=0; i<rows; ++i ) {
        Poly p;
        if( r.chance( 40 ) ) p.push_back( power( r.dyadic( 4, 4 ), -1, 0, cols ) );
        if( time && r.chance( 50 ) ) { Term t = power( r.dyadic( 2, 4 ), -1, 0, cols ); t.p[0] = 1; p.push_back( t ); }
        for( unsigned j=0; j<cols; ++j ) if( r.chance( i == j? 85: 50 ) ) {
            p.push_back( power( r.dyadic( 4, 8 ), j, 1, cols ) );
            if( r.chance( 25 ) ) p.push_back( power( r.dyadic( 1, 4 ), j, 2, cols ) );
            if( r.chance( 15 ) ) { Term t = power( r.dyadic( 1, 4 ), j, 1, cols ); t.p[1+r.below( cols )] += 1; p.push_back( t ); }
        }
        res.push_back( p );
    }
    return res;
}
static U perm( Rng& r, unsigned n ) { U p; for( unsigned i=0; i<n; ++i ) p.push_back( i ); for( int i=(int)n-1; i>0; --i ) std::swap( p[i], p[r.below( i+1 )] ); return p; }
static U some( Rng& r, unsigned n, int count = -1 ) {
    auto p = perm( r, n );
    p.resize( count < 0? r.below( n+1 ): count );
    if( !p.empty() && r.chance( 20 ) ) p.push_back( p[0] );    // named twice
    return p;
}
static U ids( Rng& r, unsigned n ) { U p; for( unsigned i=0; i<n; ++i ) p.push_back( r.below( 100 ) ); return p; }
static void makeBase( World& w, Rng& r, int kind, unsigned in, unsigned out ) {
    if( kind == 0 ) {
        w.poly = std::make_shared<Poly_>();
        w.poly->in = in;
        w.poly->p = polys( r, out, in, false );
        w.poly->ins = ids( r, in ); w.poly->outs = ids( r, out );
        w.setBase( w.poly );
        w.tellBase();
    }
    else if( kind == 1 ) { D d; for( unsigned i=0; i<in; ++i ) d.push_back( r.pick( D{ 1, 2, -0.5, 4, 3, -7, 0.125 } ) ); w.setDiag( d, r.below( 4 ) ); }
    else {
        w.ode = std::make_shared<Rhs_>();
        w.ode->nd = kind == 2? r.below( in/2+1 ): r.below( in+1 );
        w.ode->n1 = kind == 2? in - 2*w.ode->nd: in - w.ode->nd;
        w.ode->f = polys( r, w.n(), w.n(), true );
        for( unsigned i=0; i<w.ode->nd; ++i ) w.ode->f[i] = Poly{ power( 1, w.ode->nd+i, 1, w.n() ) };
        w.ode->ids = ids( r, w.n() );
        if( kind == 2 ) {
            if( r.chance( 50 ) ) { w.t = 0; w.rhs = std::make_shared< OdeRhsVectorMapping<VD> >(); w.rhs->setOdeRhs( w.ode ); }
            else { w.t = r.dyadic( 2, 8 ); w.rhs = makeOdeRhsVectorMapping<VD>( w.ode, w.t ); }
            w.setBase( w.rhs );
        }
        else {
            w.euler = std::make_shared< OdeStepMappingEuler<VD> >();
            w.euler->setOdeRhs( w.ode );
            w.t = r.dyadic( 2, 8 ); w.x0 = point( r, w.n() );
            w.euler->setInitialState( w.t, vec( w.x0 ) );
            w.setBase( w.euler );
        }
        w.tellBase();
    }
}
// a change of the base that keeps the sizes
static void changeBase( World& w, Rng& r ) {
    if( w.poly ) makeBase( w, r, 0, w.poly->in, w.poly->p.size() );
    else if( w.diag ) makeBase( w, r, 1, w.d.size(), 0 );
    else if( w.rhs ) { w.t = r.dyadic( 2, 8 ); w.rhs->setTime( w.t ); w.tellBase(); Ev( "time" ).b( "ok", w.rhs->time() == w.t ); }
    else {
        auto& e = *w.euler;
        switch( r.below( 6 ) ) {
        case 0: w.t = r.dyadic( 2, 8 ); w.x0 = point( r, w.n() ); e.setInitialState( w.t, vec( w.x0 ) ); break;
        case 1: w.h = r.pick( D{ 0.5, 0.125, 1, 0.0625 } ); e.setTimeStep( w.h ); break;
        case 2: w.alpha = r.pick( D{ 0, 0.25, 0.5, 0.75, 1 } ); e.setImplicitnessParameter( w.alpha ); break;
        case 3: {
            auto o = std::make_shared<Rhs_>( *w.ode );
            o->f = polys( r, w.n(), w.n(), true );
            w.ode = o;
            e.setOdeRhs( o );
            break;
        }
        case 4: {
            w.h = 0.25; w.alpha = r.pick( D{ 0.25, 0.5 } );
            Parameters p;
            p["h"] = w.h; p["alpha"] = w.alpha;
            e.setParameters( p );
            break;
        }
        default: {
            auto q = e.parameters();
            Ev( "euler" ).d( "h", e.timeStep() ).d( "alpha", e.implicitnessParameter() ).d( "t", e.initialTime() ).v( "x0", arr( e.initialState() ) )
                .v( "eqn", arr( e.eqnInitialState() ) ).d( "ph", q["h"].value<double>() ).d( "palpha", q["alpha"].value<double>() );
            D x = point( r, w.ode->nd + w.ode->n1 ), full = point( r, w.n() );
            Ev( "states" ).v( "x", x ).v( "full", arr( e.computeOdeState( vec( x ) ) ) ).v( "from", full ).v( "eqn", arr( e.computeEqnState( vec( full ) ) ) );
            return;
        }
        }
        w.tellBase();
    }
}
static bool addLayer( World& w, Rng& r ) {
    auto b = w.top();
    unsigned ni = b->inputSize(), no = b->outputSize();
    Layer y;
    int k = r.below( 3 );
    if( k == 0 && ni == no ) {
        y.norm = std::make_shared< MappingNormalizer<VD> >();
        for( unsigned i=0; i<ni; ++i ) y.d.push_back( r.pick( D{ 1, 2, -1, 0.5, 3, 0.25 } ) );
    }
    else if( k == 1 ) {
        y.narrow = std::make_shared< VectorNarrowingMapping<VD> >();
        if( r.chance( 75 ) ) y.din = some( r, ni );
        y.dout = ni == no && r.chance( 50 )? y.din: r.chance( 75 )? some( r, no ): U();
        y.st = point( r, ni );
    }
    else {
        y.reorder = std::make_shared< VectorReorderingMapping<VD> >();
        y.iord = perm( r, ni ); y.oord = perm( r, no );
    }
    w.push( y );
    return true;
}
static unsigned count( const U& u ) { return std::set<unsigned>( u.begin(), u.end() ).size(); }
static void random( Rng& r ) {
    World w;
    int kind = r.pick( std::vector<int>{ 0, 0, 0, 1, 2, 3, 3 } );
    unsigned in = r.range( 1, 6 );
    makeBase( w, r, kind, in, r.chance( 60 )? in: r.range( 1, 6 ) );
    int layers = r.below( 4 ), ops = r.range( 3, 12 );
    for( int i=0; i<layers; ++i ) addLayer( w, r );
    for( int q=0; q<ops; ++q ) {
        int what = r.below( 10 );
        unsigned i = w.ys.empty()? 0: r.below( w.ys.size() );
        if( what < 4 || w.ys.empty() ) { if( what == 0 ) changeBase( w, r ); w.map( point( r, w.top()->inputSize() ), r.below( 5 ) ); }
        else if( what == 4 ) w.part( i, r.below( 4 ), r );
        else if( what == 5 ) {      // another configuration of the same size
            auto& y = w.ys[i];
            auto b = i? w.ys[i-1].m(): w.base;
            unsigned ni = b->inputSize(), no = b->outputSize();
            bool in = true, out = true;
            if( y.norm ) for( auto& a : y.d ) a = r.pick( D{ 1, 2, -1, 0.5, 3, 0.25 } );
            else {
                int which = r.below( 3 );
                in = which != 1; out = which != 0;
                if( y.narrow ) { if( in ) { y.din = some( r, ni, count( y.din ) ); y.st = point( r, ni ); } if( out ) y.dout = some( r, no, count( y.dout ) ); }
                else { if( in ) y.iord = perm( r, ni ); if( out ) y.oord = perm( r, no ); }
            }
            w.config( i, in, out );
        }
        else if( what == 6 ) w.read( i );
        else if( what == 7 ) changeBase( w, r );
        else if( what == 8 && w.ys[i].norm ) w.normalize( i, point( r, w.ys[i].m()->inputSize() ) );
        else if( what == 8 && w.ys[i].narrow ) {
            auto b = i? w.ys[i-1].m(): w.base;
            bool in = r.chance( 50 );
            unsigned n = in? b->inputSize(): b->outputSize();
            U idx = some( r, n );
            idx.push_back( n + r.below( 2 ) );
            w.refuse( i, in, idx );
        }
        else if( what == 9 && w.ys.size() < 4 ) addLayer( w, r );
    }
    w.map( point( r, w.top()->inputSize() ), r.below( 5 ) );
    if( w.diag ) { D x = point( r, w.d.size() ); Ev( "unmap" ).v( "x", x ).v( "v", arr( w.inverses.back()->unmap( vec( x ) ) ) ); }
}
static U uints( const Json& j ) { U r; for( auto& a : j.a ) r.push_back( a.i() ); return r; }
static void replay( const Json& j, Rng& r ) {
    World w;
    auto& b = j["b"];
    if( b["k"].s == "diag" ) w.setDiag( b["d"].vd(), b["inv"].i() );
    else {
        w.poly = std::make_shared<Poly_>();
        w.poly->in = b["cols"].i();
        for( auto& p : b["p"].a ) { Poly q; for( auto& t : p.a ) { Term u; u.c = t["c"].d(); for( auto& e : t["p"].a ) u.p.push_back( e.i() ); q.push_back( u ); } w.poly->p.push_back( q ); }
        w.poly->ins = uints( b["ins"] ); w.poly->outs = uints( b["outs"] );
        w.setBase( w.poly );
        w.tellBase();
    }
    for( auto& y : j["ys"].a ) {
        Layer q;
        if( y["k"].s == "norm" ) { q.norm = std::make_shared< MappingNormalizer<VD> >(); q.d = y["d"].vd(); }
        else if( y["k"].s == "narrow" ) { q.narrow = std::make_shared< VectorNarrowingMapping<VD> >(); q.din = uints( y["din"] ); q.dout = uints( y["dout"] ); q.st = y["st"].vd(); }
        else { q.reorder = std::make_shared< VectorReorderingMapping<VD> >(); q.iord = uints( y["iord"] ); q.oord = uints( y["oord"] ); }
        w.push( q );
    }
    w.map( point( r, w.top()->inputSize() ), r.below( 5 ) );
    for( unsigned i=0; i<w.ys.size(); ++i ) { w.read( i ); for( int o=0; o<( w.ys[i].narrow? 3: 4 ); ++o ) w.part( i, o, r ); }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i + 3 ); scenario( "map-gen-" + std::to_string( i++ ) ); replay( j, r ); Ev( "end" ); }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9101 + i );
            scenario( "map-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
            Ev( "end" );
        }
    } );
}
