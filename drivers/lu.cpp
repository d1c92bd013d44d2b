// lu.cpp: histories of the LU factorizer.
// arguments: gen FILE, or: seed number
#include <set>
#include "json.h"
#include "ode_num_int/lu/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
using namespace ctm::math;
typedef std::pair<unsigned,unsigned> Index;
typedef std::vector<std::pair<Index,double>> Entries;

static std::string jm( const Entries& m ) {
    std::string t = "[";
    for( auto& a : m ) t += ( t.size() > 1? ",[": "[" ) + std::to_string( a.first.first ) + "," + std::to_string( a.first.second ) + "," + jd( a.second ) + "]";
    return t + "]";
}
struct Run {
    LUFactorizer<double> lu;
    bool dead = false;      // refused a matrix: only set() is allowed
    void layout( Ev& e ) {
        std::vector<int> p, q, s;
        for( unsigned i=0; i<lu.size(); ++i ) { p.push_back( lu.firstCol( i ) ); q.push_back( lu.firstRow( i ) ); s.push_back( lu.lastCol( i ) ); }
        e.i( "n", lu.size() ).vi( "p", p ).vi( "q", q ).vi( "s", s ).b( "fact", lu.isFactorized() ).b( "empty", lu.empty() );
    }
    void set( const Entries& m, int how ) {
        bool thrown = false;
        try {
            if( how == 0 ) lu.setMatrix( m );
            else if( how == 1 ) lu.setMatrix( m.begin(), m.end() );
            else if( how == 2 ) { LUFactorizer<double> f( m ); lu = f; }
            else {
                sparse::SparseMatrix<double> sm;
                unsigned r = 0, c = 0;
                for( auto& a : m ) { sm.at( a.first ) = a.second; r = std::max( r, a.first.first+1 ); c = std::max( c, a.first.second+1 ); }
                sm.resize( r, c );
                lu.setMatrix( sm );
            }
        }
        catch( std::exception& ) { thrown = true; }
        dead = thrown;
        Ev e( "set" );
        e.raw( "m", jm( m ) ).b( "thrown", thrown );
        if( !thrown ) layout( e );
    }
    void fast( const Entries& m, int how ) {
        bool thrown = false;
        try { if( how ) lu.setMatrixFast( m ); else lu.setMatrixFast( m.begin(), m.end() ); }
        catch( std::exception& ) { thrown = true; }
        dead = thrown;
        Ev e( "fast" );
        e.raw( "m", jm( m ) ).b( "thrown", thrown );
        if( !thrown ) layout( e );
    }
    void solve( const std::vector<double>& b ) {
        auto x = b;
        lu.solve( x.data() );
        Ev( "solve" ).v( "b", b ).v( "x", x ).b( "fact", lu.isFactorized() );
    }
    std::string elems() {
        std::string t = "[";
        for( unsigned i=0; i<lu.size(); ++i ) {
            std::vector<double> r;
            for( unsigned j=0; j<lu.size(); ++j ) r.push_back( lu.elementAt( i, j ) );
            t += ( i? ",": "" ) + jvecd( r );
        }
        return t + "]";
    }
    void elements() {
        auto m = luToMatrix( lu );
        std::string t = "[";
        for( unsigned i=0; i<m.size().first; ++i ) {
            std::vector<double> r;
            for( unsigned j=0; j<m.size().second; ++j ) r.push_back( m.get( i, j ) );
            t += ( i? ",": "" ) + jvecd( r );
        }
        Ev( "elements" ).raw( "m", elems() ).raw( "lu", t + "]" );
    }
    // can the matrix be factorised without trouble?
    bool healthy() const {
        auto f = lu;
        std::vector<double> x( f.size(), 1 );
        f.solve( x.data() );
        for( double a : x ) if( !( std::fabs( a ) < 1e6 ) ) return false;
        return true;
    }
    void hart( const std::vector<double>& d, const std::vector<double>& y ) {
        if( !healthy() ) return;
        lu.secantUpdateHart( d.data(), y.data() );
        Ev( "hart" ).v( "d", d ).v( "y", y ).raw( "m", elems() ).b( "fact", lu.isFactorized() );
    }
};

static Entries matrix( Rng& r, int n, const std::set<Index>& pat ) {
    Entries m;
    for( auto& p : pat ) {
        double v = r.dyadic( 2, 8 );
        if( p.first == p.second ) v = r.chance( 85 )? ( r.chance( 50 )? 1: -1 )*( n*r.range( 1, 2 ) + r.below( 8 )/8. ): v;
        m.push_back( { p, v } );
    }
    (void)n;
    return m;
}
static std::set<Index> pattern( Rng& r, int n ) {
    std::set<Index> p;
    int dens = r.pick( std::vector<int>{ 5, 15, 40, 90 } ), band = r.chance( 30 )? r.range( 0, 2 ): n;
    for( int i=0; i<n; ++i ) for( int j=0; j<n; ++j ) if( i == j? r.chance( 97 ): std::abs( i-j ) <= band && r.chance( dens ) ) p.insert( Index( i, j ) );
    if( r.chance( 15 ) && n ) { int a = r.below( n ); for( int i=0; i<n; ++i ) { p.insert( Index( i, a ) ); p.insert( Index( a, i ) ); } }
    return p;
}
static void shuffle( Rng& r, Entries& m ) { for( int i=(int)m.size()-1; i>0; --i ) std::swap( m[i], m[r.below( i+1 )] ); }
static bool fits( const LUFactorizer<double>& lu, const std::set<Index>& p ) {
    for( auto& i : p ) if( i.first >= lu.size() || i.second >= lu.size() ) return false;
    return true;
}
static void random( Rng& r ) {
    Run u;
    int n = r.range( 0, 7 ), ops = r.range( 4, 14 );
    if( r.chance( 10 ) ) n = r.range( 8, 12 );
    auto pat = pattern( r, n );
    auto m = matrix( r, n, pat );
    if( r.chance( 40 ) ) shuffle( r, m );
    if( r.chance( 30 ) ) u.fast( m, r.below( 2 ) ); else u.set( m, r.below( 4 ) );
    for( int q=0; q<ops; ++q ) {
        int what = r.below( 10 );
        if( u.dead ) what = 0;
        switch( what ) {
        case 0: {
            if( u.dead || r.chance( 40 ) ) { n = r.range( 1, 7 ); pat = pattern( r, n ); for( int i=0; i<n; ++i ) if( !r.chance( 3 ) ) pat.insert( Index( i, i ) ); }
            m = matrix( r, n, pat );
            if( r.chance( 4 ) && n > 1 ) { auto i = r.below( m.size() ); m.erase( m.begin()+i ); pat.clear(); for( auto& a : m ) pat.insert( a.first ); }
            if( r.chance( 40 ) ) shuffle( r, m );
            u.set( m, r.below( 4 ) );
            break;
        }
        case 1: case 2: case 3: {
            // same pattern, a part of it, another one, a larger one
            auto p = pat;
            int h = r.below( 6 );
            if( h == 0 ) { for( auto& i : pat ) if( i.first != i.second && r.chance( 40 ) ) p.erase( i ); }
            else if( h == 1 ) { for( int k=0; k<2 && n; ++k ) p.insert( Index( r.below( n ), r.below( n ) ) ); }
            else if( h == 2 ) { p = pattern( r, n ); for( int i=0; i<n; ++i ) p.insert( Index( i, i ) ); }
            else if( h == 3 && r.chance( 50 ) ) { n += r.range( 1, 2 ); p = pattern( r, n ); for( int i=0; i<n; ++i ) p.insert( Index( i, i ) ); }
            m = matrix( r, n, p );
            if( r.chance( 40 ) ) shuffle( r, m );
            u.fast( m, r.below( 2 ) );
            // a smaller pattern keeps the layout; later matrices may fill it again
            if( !fits( u.lu, p ) || h != 0 ) pat = p;
            break;
        }
        case 4: case 5: case 6: {
            std::vector<double> b;
            for( unsigned i=0; i<u.lu.size(); ++i ) b.push_back( r.dyadic( 4, 8 ) );
            u.solve( b );
            break;
        }
        case 7: u.elements(); break;
        default: {
            if( n > 7 ) break;
            std::vector<double> d, y, ad( u.lu.size() );
            for( unsigned i=0; i<u.lu.size(); ++i ) { double a; do a = r.dyadic( 1, 8 ); while( a == 0 ); d.push_back( a ); }
            for( unsigned i=0; i<u.lu.size(); ++i ) {
                for( unsigned j=0; j<u.lu.size(); ++j ) ad[i] += u.lu.elementAt( i, j )*d[j];
                y.push_back( r.chance( 20 )? ad[i]: ad[i]*( 1 + r.dyadic( 1, 8 )/4 ) + r.dyadic( 1, 8 )/4 );
            }
            u.hart( d, y );
            break;
        }
        }
    }
    if( !u.dead ) { std::vector<double> b( u.lu.size(), 1 ); u.solve( b ); u.elements(); }
}
static Entries entries( const Json& j ) {
    Entries m;
    for( auto& a : j.a ) m.push_back( { Index( a.a[0].i(), a.a[1].i() ), a.a[2].d() } );
    return m;
}
static void replay( const Json& j, Rng& r ) {
    Run u;
    for( auto& o : j["ops"].a ) {
        std::string op = o["e"].s;
        if( u.dead && op != "set" ) continue;
        if( op == "set" ) u.set( entries( o["m"] ), r.below( 4 ) );
        else if( op == "fast" ) u.fast( entries( o["m"] ), r.below( 2 ) );
        else if( op == "solve" ) u.solve( o["b"].vd() );
        else if( op == "elements" ) u.elements();
        else if( op == "hart" ) u.hart( o["d"].vd(), o["y"].vd() );
    }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i ); scenario( "lu-gen-" + std::to_string( i++ ) ); replay( j, r ); }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*6011 + i );
            scenario( "lu-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
        }
    } );
}
