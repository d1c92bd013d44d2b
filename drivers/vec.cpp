// vec.cpp: operations on vectors and their views.
// arguments: gen FILE, or: seed number
#include "json.h"
#include "ode_num_int/la/VectorTemplate.h"
using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;

struct ViewOp { char o; int from = 0, size = 0; double c = 1; };
struct View {
    int k = 0; bool cst = false; std::vector<ViewOp> ops;
    std::string json() const {
        std::string r = "{\"k\":" + std::to_string( k+1 ) + ",\"ops\":[";
        for( size_t i=0; i<ops.size(); ++i ) {
            auto& o = ops[i];
            r += ( i? ",": "" );
            if( o.o == 'b' ) r += "{\"o\":\"b\",\"from\":" + std::to_string( o.from ) + ",\"size\":" + std::to_string( o.size ) + "}";
            else r += "{\"o\":\"s\",\"c\":" + jd( o.c ) + "}";
        }
        return r + "]}";
    }
    std::string shape() const { std::string s; for( auto& o : ops ) s += o.o; return s; }
};

struct Env {
    V v[4];
    std::string all() const { std::string r = "["; for( int i=0; i<4; ++i ) r += ( i? ",": "" ) + jvecd( v[i] ); return r + "]"; }

    // f is called with a view that can be written
    template< class F > void dst( const View& x, F f ) {
        auto& a = v[x.k];
        if( x.ops.empty() ) return f( a );
        auto b = a.block( x.ops[0].from, x.ops[0].size );
        if( x.ops.size() == 1 ) return f( b );
        auto c = b.block( x.ops[1].from, x.ops[1].size );
        f( c );
    }
    // f is called with a view that can be read; elementwise: f needs no iterators
    template< class F > void src( const View& x, F f ) {
        auto& a = v[x.k];
        const V& ca = a;
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "" ) { if( x.cst ) f( ca ); else f( a ); }
        else if( s == "b" ) {
            if( x.cst ) { auto b = ca.block( p(0).from, p(0).size ); f( b ); }
            else { auto b = a.block( p(0).from, p(0).size ); f( b ); }
        }
        else if( s == "s" ) { auto b = a.scaled( p(0).c ); f( b ); }
        else if( s == "bb" ) { auto b = a.block( p(0).from, p(0).size ); auto c = b.block( p(1).from, p(1).size ); f( c ); }
        else if( s == "bs" ) {
            if( x.cst ) { auto b = ca.block( p(0).from, p(0).size ); auto c = b.scaled( p(1).c ); f( c ); }
            else { auto b = a.block( p(0).from, p(0).size ); auto c = b.scaled( p(1).c ); f( c ); }
        }
        else if( s == "ss" ) { auto b = a.scaled( p(0).c ); auto c = b.scaled( p(1).c ); f( c ); }
        else throw std::runtime_error( "view " + s );
    }
    // ... and a block of a scaled vector, which has no iterators
    template< class F > void elem( const View& x, F f ) {
        if( x.shape() != "sb" ) return src( x, f );
        auto b = v[x.k].scaled( x.ops[0].c );
        auto c = b.block( x.ops[1].from, x.ops[1].size );
        f( c );
    }
    int size( const View& x ) const { int n = v[x.k].size(); for( auto& o : x.ops ) if( o.o == 'b' ) n = o.size; return n; }

    void create( int k, int n ) { if( n ) { V a( n ); v[k].swap( a ); } else { V a; v[k].swap( a ); } Ev( "new" ).i( "k", k+1 ).i( "size", n ).raw( "all", all() ); }
    void copy( int k, const View& s, int how ) {
        src( s, [&]( const auto& a ) {
            if( how == 0 ) { V b( a ); v[k].swap( b ); }
            else if( how == 1 ) { auto b = a.clone(); v[k].swap( b ); }
            else { V b; b = a; v[k].swap( b ); }
        } );
        Ev( "copy" ).i( "k", k+1 ).raw( "s", s.json() ).raw( "all", all() );
    }
    void assign( const View& d, const View& s ) {
        dst( d, [&]( auto& a ) { this->src( s, [&]( const auto& b ) { a = b; } ); } );
        Ev( "assign" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void add( const View& d, const View& s ) {
        dst( d, [&]( auto& a ) { this->elem( s, [&]( const auto& b ) { a += b; } ); } );
        Ev( "add" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void sub( const View& d, const View& s ) {
        dst( d, [&]( auto& a ) { this->elem( s, [&]( const auto& b ) { a -= b; } ); } );
        Ev( "sub" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void mul( const View& d, double c ) { dst( d, [&]( auto& a ) { a *= c; } ); Ev( "mul" ).raw( "d", d.json() ).d( "c", c ).raw( "all", all() ); }
    void set( const View& d, int i, double c, int how ) {
        dst( d, [&]( auto& a ) { if( how == 0 ) a[i] = c; else if( how == 1 ) a.at( i ) = c; else *( a.begin() + i ) = c; } );
        Ev( "set" ).raw( "d", d.json() ).i( "i", i ).d( "c", c ).raw( "all", all() );
    }
    void clear( const View& d ) { dst( d, [&]( auto& a ) { a.clear(); } ); Ev( "clear" ).raw( "d", d.json() ).raw( "all", all() ); }
    void resize( int k, int n ) { v[k].resize( n ); Ev( "resize" ).i( "k", k+1 ).i( "size", n ).raw( "all", all() ); }
    void swap( int k, int j ) { v[k].swap( v[j] ); Ev( "swap" ).i( "k", k+1 ).i( "j", j+1 ).raw( "all", all() ); }
    void plus( int k, const View& s, const View& s2, bool minus ) {
        V r;
        src( s, [&]( const auto& a ) { this->elem( s2, [&]( const auto& b ) { if( minus ) r = a - b; else r = a + b; } ); } );
        v[k].swap( r );
        Ev( minus? "minus": "plus" ).i( "k", k+1 ).raw( "s", s.json() ).raw( "s2", s2.json() ).raw( "all", all() );
    }
    void map( int k, const std::string& f, const View& s, const View& s2 ) {
        V r;
        src( s, [&]( const auto& a ) {
            if( f == "fabs" ) r = std::fabs( a );
            else if( f == "sqrt" ) r = std::sqrt( a );
            else if( f == "sqr" ) r = sqrOf( V( a ) );
        } );
        if( f == "max" ) src( s, [&]( const auto& a ) { this->src( s2, [&]( const auto& b ) { r = maxOf( V( a ), V( b ) ); } ); } );
        v[k].swap( r );
        Ev( "map" ).i( "k", k+1 ).s( "f", f ).raw( "s", s.json() ).raw( "s2", s2.json() ).raw( "all", all() );
    }
    void read( const View& s ) {
        std::vector<double> q; int n = -1; bool e = false;
        elem( s, [&]( const auto& a ) { n = a.size(); e = a.empty(); for( int i=0; i<n; ++i ) q.push_back( i & 1? a[i]: a.at( i ) ); } );
        Ev( "read" ).raw( "s", s.json() ).v( "v", q ).i( "n", n ).b( "empty", e ).raw( "all", all() );
    }
    void norms( const View& s ) {
        double i = 0, o = 0, q = 0, t = 0;
        src( s, [&]( const auto& a ) { i = a.infNorm(); o = a.oneNorm(); q = a.euclideanNormSquare(); t = a.euclideanNorm(); } );
        Ev( "norms" ).raw( "s", s.json() ).d( "inf", i ).d( "one", o ).d( "sq", q ).d( "two", t ).raw( "all", all() );
    }
    void dot( const View& s, const View& s2 ) {
        double r = 0;
        elem( s, [&]( const auto& a ) { this->elem( s2, [&]( const auto& b ) { r = a.dot( b ); } ); } );
        Ev( "dot" ).raw( "s", s.json() ).raw( "s2", s2.json() ).d( "r", r ).raw( "all", all() );
    }
    void str( int k, int half ) {
        std::string t;
        if( half ) t = v[k].toString( half ); else { std::ostringstream o; o << v[k]; t = o.str(); }
        std::string r = "[";
        bool bad = t.size() < 2 || t[0] != '[' || t.back() != ']';
        if( !bad ) {
            std::string in = t.substr( 1, t.size()-2 );
            while( !in.empty() ) {
                auto p = in.find( ", " );
                auto w = in.substr( 0, p );
                in = p == std::string::npos? "": in.substr( p+2 );
                if( r.size() > 1 ) r += ",";
                r += w == "..."? jstr( w ): jd( std::stod( w ) );
            }
        }
        Ev( "str" ).i( "k", k+1 ).i( "half", half ).raw( "v", r + ( bad? "\"bad\"]": "]" ) ).raw( "all", all() );
    }
    static V maxOf( const V& a, const V& b ) { return std::max( a, b ); }
    static V sqrOf( const V& a ) { return ctm::math::sqr( a ); }
};

static View view( const Json& j, Rng& r ) {
    View x;
    x.k = j["k"].i() - 1;
    for( auto& o : j["ops"].a ) {
        ViewOp p;
        p.o = o["o"].s[0];
        if( p.o == 'b' ) { p.from = o["from"].i(); p.size = o["size"].i(); } else p.c = o["c"].d();
        x.ops.push_back( p );
    }
    x.cst = r.chance( 30 );
    return x;
}
static void checkAll( Env& e, int k ) { View x; x.k = k; e.read( x ); e.norms( x ); e.str( k, k ); }
static void replay( const Json& j, Rng& r ) {
    Env e;
    for( auto& o : j["ops"].a ) {
        std::string op = o["e"].s;
        if( op == "new" ) e.create( o["k"].i()-1, o["size"].i() );
        else if( op == "resize" ) e.resize( o["k"].i()-1, o["size"].i() );
        else if( op == "copy" ) e.copy( o["k"].i()-1, view( o["s"], r ), r.below( 3 ) );
        else if( op == "assign" ) e.assign( view( o["d"], r ), view( o["s"], r ) );
        else if( op == "add" ) e.add( view( o["d"], r ), view( o["s"], r ) );
        else if( op == "sub" ) e.sub( view( o["d"], r ), view( o["s"], r ) );
        else if( op == "set" ) e.set( view( o["d"], r ), o["i"].i(), o["c"].d(), r.below( 3 ) );
        else if( op == "mul" ) e.mul( view( o["d"], r ), o["c"].d() );
        else if( op == "clear" ) e.clear( view( o["d"], r ) );
        else if( op == "swap" ) e.swap( o["k"].i()-1, o["j"].i()-1 );
        else e.plus( o["k"].i()-1, view( o["s"], r ), view( o["s2"], r ), op == "minus" );
    }
    for( int k=0; k<4; ++k ) checkAll( e, k );
}

// a view of vector k with n elements (-1: any number), writable or not
static View randView( Rng& r, const Env& e, int k, int n, bool write ) {
    View x;
    x.k = k;
    x.cst = r.chance( 30 );
    int N = e.v[k].size();
    auto block = [&]( int from, int want ) {
        ViewOp o; o.o = 'b';
        o.size = want >= 0? want: r.range( 0, from );
        o.from = r.range( 0, from - o.size );
        x.ops.push_back( o );
        return o.size;
    };
    auto scale = [&] { ViewOp o; o.o = 's'; o.c = r.pick( std::vector<double>{ -1, 0.5, 2, -0.25, 0, 1 } ); x.ops.push_back( o ); };
    int what = write? r.below( 3 ): r.below( 7 );
    switch( what ) {
    case 0: if( n >= 0 && n != N ) block( N, n ); break;
    case 1: block( N, n ); break;
    case 2: { int m = block( N, n < 0? -1: r.range( n, N ) ); block( m, n ); break; }
    case 3: if( n >= 0 && n != N ) block( N, n ); scale(); break;
    case 4: block( N, n ); scale(); break;
    case 5: if( n >= 0 && n != N ) { block( N, n ); break; } scale(); scale(); break;
    case 6: scale(); block( N, n ); break;
    }
    return x;
}
static View noSb( Rng& r, const Env& e, int k, int n ) { View x; do x = randView( r, e, k, n, false ); while( x.shape() == "sb" ); return x; }

static void random( Rng& r ) {
    Env e;
    int ops = r.range( 10, 40 );
    for( int k=0; k<4; ++k ) {
        e.create( k, r.below( 7 ) );
        View w; w.k = k;
        for( int i=0, n=e.v[k].size(); i<n; ++i ) if( r.chance( 80 ) ) e.set( w, i, r.dyadic( 4, 4 ), r.below( 3 ) );
    }
    auto tidy = [&] {
        // keep the numbers such that everything stays exact
        for( int i=0; i<4; ++i ) {
            double big = 0;
            for( double a : e.v[i] ) big = std::max( big, std::fabs( a ) );
            if( big > 64 ) { View w; w.k = i; e.clear( w ); }
            for( int s=0, n=e.v[i].size(); s<n; ++s ) { double a = e.v[i][s]; if( std::floor( a*4096 ) != a*4096 ) { View w; w.k = i; e.set( w, s, r.dyadic( 4, 4 ), 0 ); } }
        }
    };
    for( int q=0; q<ops; ++q ) {
        int k = r.below( 4 ), j;
        do j = r.below( 4 ); while( j == k );
        int N = e.v[k].size(), M = e.v[j].size(), m = r.range( 0, std::min( N, M ) );
        tidy();
        switch( r.below( 16 ) ) {
        case 0: if( r.chance( 40 ) ) e.create( k, r.below( 7 ) ); else e.resize( k, r.below( 8 ) ); break;
        case 1: e.resize( k, r.below( 8 ) ); break;
        case 2: e.copy( k, noSb( r, e, j, -1 ), r.below( 3 ) ); break;
        case 3: { View d = randView( r, e, k, m, true ); e.assign( d, noSb( r, e, j, d.ops.empty()? -1: m ) ); break; }
        case 4: { View d; d.k = k; e.assign( d, noSb( r, e, j, -1 ) ); break; }
        case 5: e.add( randView( r, e, k, m, true ), randView( r, e, j, m, false ) ); break;
        case 6: e.sub( randView( r, e, k, m, true ), randView( r, e, j, m, false ) ); break;
        case 7: e.mul( randView( r, e, k, -1, true ), r.pick( std::vector<double>{ -1, 0.5, 2, 0, -0.25 } ) ); break;
        case 8: { View d = randView( r, e, k, -1, true ); int n = e.size( d ); if( n ) e.set( d, r.below( n ), r.dyadic( 4, 4 ), r.below( 3 ) ); break; }
        case 9: if( r.chance( 30 ) ) e.clear( randView( r, e, k, -1, true ) ); else e.swap( k, j ); break;
        case 10: e.plus( k, noSb( r, e, k, m ), randView( r, e, j, m, false ), r.chance( 50 ) ); break;
        case 11: {
            auto f = r.pick( std::vector<std::string>{ "sqr", "fabs", "max", "sqrt" } );
            View a = noSb( r, e, k, m ), b = noSb( r, e, j, m );
            if( f == "sqrt" ) { bool neg = false; e.src( a, [&]( const auto& q ) { for( int i=0, n=q.size(); i<n; ++i ) neg = neg || q[i] < 0; } ); if( neg ) break; }
            e.map( r.below( 4 ), f, a, b );
            break;
        }
        case 12: e.read( randView( r, e, k, -1, false ) ); break;
        case 13: e.norms( noSb( r, e, k, -1 ) ); break;
        case 14: e.dot( randView( r, e, k, m, false ), randView( r, e, r.chance( 20 )? k: j, m, false ) ); break;
        default: e.str( k, r.below( 4 ) );
            // a vector with itself, element by element
            View w; w.k = k;
            if( r.chance( 50 ) ) e.add( w, w ); else if( r.chance( 50 ) ) e.assign( w, w ); else { View s = w; ViewOp o; o.o = 's'; o.c = -0.5; s.ops.push_back( o ); e.add( w, s ); }
        }
    }
    tidy();
    for( int k=0; k<4; ++k ) checkAll( e, k );
}

int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i ); scenario( "vec-gen-" + std::to_string( i++ ) ); replay( j, r ); }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*6011 + i );
            scenario( "vec-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
        }
    } );
}
