// sparse.cpp: operations on sparse matrices and their views.
// arguments: gen FILE, or: seed number
#include "json.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
using namespace ctm::math::sparse;
typedef SparseMatrixData<double> MD;
typedef SparseMatrixTemplate<MD> M;
typedef SparseMatrixTemplate< SparseMatrixFastData<double> > F;
typedef M::Index Index;
enum { NM = 5, NFlex = 3 };     // matrices NFlex.. are fast

struct ViewOp { char o; int fr = 0, fc = 0, nr = 0, nc = 0; double c = 1; };
struct View {
    int k = 0; std::vector<ViewOp> ops;
    std::string json() const {
        std::ostringstream r;
        r << "{\"k\":" << k+1 << ",\"ops\":[";
        for( size_t i=0; i<ops.size(); ++i ) {
            auto& o = ops[i];
            r << ( i? ",": "" ) << "{\"o\":\"" << o.o << '"';
            if( o.o == 'b' ) r << ",\"fr\":" << o.fr << ",\"fc\":" << o.fc << ",\"nr\":" << o.nr << ",\"nc\":" << o.nc;
            else if( o.o == 's' ) r << ",\"c\":" << jd( o.c );
            r << "}";
        }
        r << "]}";
        return r.str();
    }
    std::string shape() const { std::string s; for( auto& o : ops ) s += o.o; return s; }
};
template< class A > std::string dump( const A& m, bool fast ) {
    int R = m.size().first, C = m.size().second;
    std::ostringstream v, p;
    for( int i=0; i<R; ++i ) {
        v << ( i? ",[": "[" ); p << ( i? ",[": "[" );
        for( int j=0; j<C; ++j ) {
            double a = i & 1? m.get( i, j ): j & 1? m[Index( i, j )]: m.get( Index( i, j ) );
            bool h = m.hasIndex( Index( i, j ) );
            auto q = m.checkedGet( Index( i, j ) );
            if( q.first != a || q.second != h ) a = NAN;
            v << ( j? ",": "" ) << jd( a ); p << ( j? ",": "" ) << ( h? "true": "false" );
        }
        v << "]"; p << "]";
    }
    std::ostringstream r;
    r << "{\"fast\":" << ( fast? "true": "false" ) << ",\"r\":" << R << ",\"c\":" << C << ",\"v\":[" << v.str() << "],\"p\":[" << p.str() << "]}";
    return r.str();
}

struct Env {
    M m[NFlex]; F f[NM-NFlex];
    std::string all() const {
        std::string r = "[";
        for( int i=0; i<NM; ++i ) r += ( i? ",": "" ) + ( i < NFlex? dump( m[i], false ): dump( f[i-NFlex], true ) );
        return r + "]";
    }
    Index size( int k ) const { return k < NFlex? m[k].size(): f[k-NFlex].size(); }
    Index size( const View& x ) const {
        Index n = size( x.k );
        for( auto& o : x.ops ) if( o.o == 'b' ) n = Index( o.nr, o.nc ); else if( o.o == 't' ) n = Index( n.second, n.first );
        return n;
    }
    static Index from( const ViewOp& o ) { return Index( o.fr, o.fc ); }
    static Index sz( const ViewOp& o ) { return Index( o.nr, o.nc ); }

    // g is called with a view that can be written
    template< class A, class G > void write( A& a, const View& x, G g ) {
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "" ) g( a );
        else if( s == "b" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); g( b ); }
        else if( s == "t" ) { auto b = a.transposed(); g( b ); }
        else if( s == "bb" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.block( p(1).fr, p(1).fc, p(1).nr, p(1).nc ); g( c ); }
        else if( s == "bt" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.transposed(); g( c ); }
        else if( s == "tb" ) { auto b = a.transposed(); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else if( s == "tt" ) { auto b = a.transposed(); auto c = b.transposed(); g( c ); }
        else throw std::runtime_error( "view " + s );
    }
    template< class G > void dst( const View& x, G g ) { if( x.k < NFlex ) write( m[x.k], x, g ); else write( f[x.k-NFlex], x, g ); }
    template< class G > void flex( const View& x, G g ) { write( m[x.k], x, g ); }
    // ... that can be assigned to (whole matrices and blocks of flexible ones)
    template< class G > void assignable( const View& x, G g ) {
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "" ) { if( x.k < NFlex ) g( m[x.k] ); else g( f[x.k-NFlex] ); }
        else if( s == "b" ) { auto b = m[x.k].block( from( p(0) ), sz( p(0) ) ); g( b ); }
        else if( s == "bb" ) { auto b = m[x.k].block( from( p(0) ), sz( p(0) ) ); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else if( s == "tb" ) { auto b = m[x.k].transposed(); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else throw std::runtime_error( "view " + s );
    }
    // ... that can be read
    template< class A, class G > void read( A& a, const View& x, G g ) {
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "s" ) { auto b = a.scaled( p(0).c ); g( b ); }
        else if( s == "bs" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.scaled( p(1).c ); g( c ); }
        else if( s == "ts" ) { auto b = a.transposed(); auto c = b.scaled( p(1).c ); g( c ); }
        else if( s == "sb" ) { auto b = a.scaled( p(0).c ); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else if( s == "st" ) { auto b = a.scaled( p(0).c ); auto c = b.transposed(); g( c ); }
        else if( s == "ss" ) { auto b = a.scaled( p(0).c ); auto c = b.scaled( p(1).c ); g( c ); }
        else write( a, x, g );
    }
    template< class G > void src( const View& x, G g ) { if( x.k < NFlex ) read( m[x.k], x, g ); else fewer( f[x.k-NFlex], x, g ); }
    template< class A, class G > void fewer( A& a, const View& x, G g ) {
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "" ) g( a );
        else if( s == "b" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); g( b ); }
        else if( s == "t" ) { auto b = a.transposed(); g( b ); }
        else if( s == "s" ) { auto b = a.scaled( p(0).c ); g( b ); }
        else if( s == "bs" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.scaled( p(1).c ); g( c ); }
        else throw std::runtime_error( "view " + s );
    }
    // ... whose rows can be iterated over (left operand of a product)
    template< class G > void rows( const View& x, G g ) {
        auto s = x.shape();
        auto& a = m[x.k];
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( s == "" ) g( a );
        else if( s == "b" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); g( b ); }
        else if( s == "s" ) { auto b = a.scaled( p(0).c ); g( b ); }
        else if( s == "bb" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else if( s == "bs" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); auto c = b.scaled( p(1).c ); g( c ); }
        else if( s == "sb" ) { auto b = a.scaled( p(0).c ); auto c = b.block( from( p(1) ), sz( p(1) ) ); g( c ); }
        else throw std::runtime_error( "view " + s );
    }
    // ... and a few kinds only
    template< class G > void some( const View& x, G g ) {
        auto s = x.shape();
        auto p = [&]( int i ) -> const ViewOp& { return x.ops[i]; };
        if( x.k >= NFlex ) return g( f[x.k-NFlex] );
        auto& a = m[x.k];
        if( s == "" ) g( a );
        else if( s == "b" ) { auto b = a.block( from( p(0) ), sz( p(0) ) ); g( b ); }
        else if( s == "t" ) { auto b = a.transposed(); g( b ); }
        else if( s == "s" ) { auto b = a.scaled( p(0).c ); g( b ); }
        else throw std::runtime_error( "view " + s );
    }
    template< class A > void put( int k, const A& a ) { if( k < NFlex ) m[k] = a; else f[k-NFlex] = a; }

    void create( int k, int r, int c ) {
        if( k < NFlex ) { if( r & 1 ) m[k] = M( r, c ); else m[k] = M( Index( r, c ) ); } else f[k-NFlex] = F( r, c );
        Ev( "new" ).i( "k", k+1 ).i( "r", r ).i( "c", c ).raw( "all", all() );
    }
    void data( int k, const std::vector<std::pair<Index,double>>& q, bool sized, int r, int c ) {
        MD d;
        std::string t = "[";
        for( auto& a : q ) {
            d.at( a.first ) = a.second;
            t += ( t.size() > 1? ",[": "[" ) + std::to_string( a.first.first ) + "," + std::to_string( a.first.second ) + "," + jd( a.second ) + "]";
        }
        if( k < NFlex ) { if( sized ) m[k] = M( d, Index( r, c ) ); else m[k] = M( d ); }
        else { SparseMatrixFastData<double> fd( d ); if( sized ) f[k-NFlex] = F( fd, Index( r, c ) ); else f[k-NFlex] = F( fd ); }
        Ev( "data" ).i( "k", k+1 ).raw( "q", t + "]" ).b( "sized", sized ).i( "r", r ).i( "c", c ).raw( "all", all() );
    }
    void copy( int k, const View& s, int how ) {
        src( s, [&]( const auto& a ) {
            if( how == 0 ) { auto b = a.clone(); this->put( k, b ); }
            else if( k < NFlex ) { M b( a ); m[k] = b; } else { F b( a ); f[k-NFlex] = b; }
        } );
        Ev( "copy" ).i( "k", k+1 ).raw( "s", s.json() ).raw( "all", all() );
    }
    void assign( const View& d, const View& s ) {
        assignable( d, [&]( auto& a ) { this->src( s, [&]( const auto& b ) { a = b; } ); } );
        Ev( "assign" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void add( const View& d, const View& s, bool minus ) {
        dst( d, [&]( auto& a ) { this->src( s, [&]( const auto& b ) { if( minus ) a -= b; else a += b; } ); } );
        Ev( minus? "sub": "add" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void set( const View& d, int i, int j, double c, int how ) {
        bool thrown = false;
        try { dst( d, [&]( auto& a ) { if( how ) a.at( i, j ) = c; else a.at( Index( i, j ) ) = c; } ); }
        catch( std::exception& ) { thrown = true; }
        Ev( "set" ).raw( "d", d.json() ).i( "i", i ).i( "j", j ).d( "a", c ).b( "thrown", thrown ).raw( "all", all() );
    }
    void times( int k, const View& s, const View& s2 ) {
        M r;
        rows( s, [&]( const auto& a ) { this->src( s2, [&]( const auto& b ) { r = a * b; } ); } );
        put( k, r );
        Ev( "times" ).i( "k", k+1 ).raw( "s", s.json() ).raw( "s2", s2.json() ).raw( "all", all() );
    }
    void mul( const View& d, const View& s ) {
        auto go = [&]( auto& a ) { this->some( s, [&]( const auto& b ) { a *= b; } ); };
        if( d.ops.empty() ) go( m[d.k] );
        else { auto b = m[d.k].block( from( d.ops[0] ), sz( d.ops[0] ) ); go( b ); }
        Ev( "mul" ).raw( "d", d.json() ).raw( "s", s.json() ).raw( "all", all() );
    }
    void identity( int k, int n, double a ) {
        if( a == 1 ) put( k, M::identity( n ) ); else put( k, M::scaledIdentity( n, a ) );
        Ev( "identity" ).i( "k", k+1 ).i( "n", n ).d( "a", a ).raw( "all", all() );
    }
    void addid( const View& d, double c ) {
        dst( d, [&]( auto& a ) { if( c == 1 ) a.addIdentity(); else a.addScaledIdentity( c ); } );
        Ev( "addid" ).raw( "d", d.json() ).d( "a", c ).raw( "all", all() );
    }
    void zero( int k ) { if( k < NFlex ) m[k].makeZero(); else f[k-NFlex].makeZero(); Ev( "zero" ).i( "k", k+1 ).raw( "all", all() ); }
    void resize( int k, int r, int c ) { if( r & 1 ) m[k].resize( r, c ); else m[k].resize( Index( r, c ) ); Ev( "resize" ).i( "k", k+1 ).i( "r", r ).i( "c", c ).raw( "all", all() ); }
    void shrink( int k ) { m[k].resizeFromData(); Ev( "shrink" ).i( "k", k+1 ).raw( "all", all() ); }
    void remove( const View& d, int i, int j ) {
        flex( d, [&]( auto& a ) { a.removeAt( Index( i, j ) ); } );
        Ev( "remove" ).raw( "d", d.json() ).i( "i", i ).i( "j", j ).raw( "all", all() );
    }
    void clear( const View& d ) {
        if( d.k >= NFlex ) f[d.k-NFlex].clear(); else flex( d, [&]( auto& a ) { a.clear(); } );
        Ev( "clear" ).raw( "d", d.json() ).raw( "all", all() );
    }
    void look( const View& s ) {
        std::string q = "[", mm; int n = 0; bool e = false;
        src( s, [&]( auto& a ) {
            auto put = [&]( int i, int j, double x ) { q += ( q.size() > 1? ",[": "[" ) + std::to_string( i ) + "," + std::to_string( j ) + "," + jd( x ) + "]"; };
            const auto& ca = a;
            if( s.k & 1 ) for( auto v : a ) put( v.first.first, v.first.second, v.second );
            else for( auto i = ca.begin(), z = ca.end(); i != z; ++i ) put( i->first.first, i->first.second, i->second );
            n = a.count(); e = a.empty(); mm = dump( a, false );
        } );
        Ev( "read" ).raw( "s", s.json() ).raw( "q", q + "]" ).raw( "m", mm ).i( "n", n ).b( "empty", e ).raw( "all", all() );
    }
    void norms( const View& s ) {
        double i = 0, o = 0, q = 0, t = 0;
        src( s, [&]( const auto& a ) { i = a.infNorm(); o = a.oneNorm(); q = a.euclideanNormSquare(); t = a.euclideanNorm(); } );
        Ev( "norms" ).raw( "s", s.json() ).d( "inf", i ).d( "one", o ).d( "sq", q ).d( "two", t ).raw( "all", all() );
    }
    void vec( const View& s, const std::vector<double>& x, bool left ) {
        Vector<double> v( x.size() ), y;
        for( size_t i=0; i<x.size(); ++i ) v[i] = x[i];
        src( s, [&]( const auto& a ) { if( left ) y = v * a; else y = a * v; } );
        Ev( left? "vm": "mv" ).raw( "s", s.json() ).v( "x", x ).v( "y", y ).raw( "all", all() );
    }
    void text( const View& s ) {
        std::ostringstream a, b;
        src( s, [&]( const auto& q ) { a << q; printScilabMatrix( b, q, "name" ); } );
        std::string t = "[", ln;
        std::istringstream in( a.str() );
        while( std::getline( in, ln ) ) {
            std::istringstream w( ln );
            std::string r = "[", x;
            while( w >> x ) r += ( r.size() > 1? ",": "" ) + jd( std::stod( x ) );
            t += ( t.size() > 1? ",": "" ) + r + "]";
        }
        std::string q = "[", z = "[]";
        std::istringstream in2( b.str() );
        while( std::getline( in2, ln ) ) {
            int i, j; double v; char tail = 0;
            if( sscanf( ln.c_str(), "name = zeros(%d, %d)%c", &i, &j, &tail ) == 3 && tail == ';' ) z = "[" + std::to_string( i ) + "," + std::to_string( j ) + "]";
            else if( sscanf( ln.c_str(), "name(%d, %d) = %lf%c", &i, &j, &v, &tail ) == 4 && tail == ';' ) q += ( q.size() > 1? ",[": "[" ) + std::to_string( i ) + "," + std::to_string( j ) + "," + jd( v ) + "]";
            else q += "[0,0,\"nan\"]";
        }
        Ev( "text" ).raw( "s", s.json() ).raw( "t", t + "]" ).raw( "zeros", z ).raw( "q", q + "]" ).raw( "all", all() );
    }
};

static View view( const Json& j ) {
    View x;
    x.k = j["k"].i() - 1;
    for( auto& o : j["ops"].a ) {
        ViewOp p;
        p.o = o["o"].s[0];
        if( p.o == 'b' ) { p.fr = o["fr"].i(); p.fc = o["fc"].i(); p.nr = o["nr"].i(); p.nc = o["nc"].i(); }
        else if( p.o == 's' ) p.c = o["c"].d();
        x.ops.push_back( p );
    }
    return x;
}
static void checkAll( Env& e, int k, Rng& r ) {
    View x; x.k = k;
    e.look( x ); e.norms( x ); e.text( x );
    std::vector<double> v( e.size( k ).second ), w( e.size( k ).first );
    for( auto& a : v ) a = r.dyadic( 3, 2 );
    for( auto& a : w ) a = r.dyadic( 3, 2 );
    e.vec( x, v, false ); e.vec( x, w, true );
}
static void replay( const Json& j, Rng& r ) {
    Env e;
    for( auto& o : j["ops"].a ) {
        std::string op = o["e"].s;
        int k = o.has( "k" )? o["k"].i()-1: 0;
        if( op == "new" ) e.create( k, o["r"].i(), o["c"].i() );
        else if( op == "resize" ) e.resize( k, o["r"].i(), o["c"].i() );
        else if( op == "shrink" ) e.shrink( k );
        else if( op == "zero" ) e.zero( k );
        else if( op == "identity" ) e.identity( k, o["n"].i(), o["a"].d() );
        else if( op == "copy" ) e.copy( k, view( o["s"] ), r.below( 2 ) );
        else if( op == "assign" ) e.assign( view( o["d"] ), view( o["s"] ) );
        else if( op == "add" || op == "sub" ) e.add( view( o["d"] ), view( o["s"] ), op == "sub" );
        else if( op == "set" ) e.set( view( o["d"] ), o["i"].i(), o["j"].i(), o["a"].d(), r.below( 2 ) );
        else if( op == "remove" ) e.remove( view( o["d"] ), o["i"].i(), o["j"].i() );
        else if( op == "clear" ) e.clear( view( o["d"] ) );
        else if( op == "addid" ) e.addid( view( o["d"] ), o["a"].d() );
        else if( op == "times" ) e.times( k, view( o["s"] ), view( o["s2"] ) );
        else if( op == "mul" ) e.mul( view( o["d"] ), view( o["s"] ) );
        else throw std::runtime_error( "operation " + op );
    }
    for( int k=0; k<NM; ++k ) checkAll( e, k, r );
}

// a view of matrix k with one of the shapes, nr x nc (-1: any)
static bool randView( Rng& r, const Env& e, int k, int nr, int nc, const std::vector<std::string>& shapes, View& x ) {
    for( int tries = 0; tries < 20; ++tries ) {
        x = View();
        x.k = k;
        auto s = r.pick( shapes );
        bool odd = std::count( s.begin(), s.end(), 't' ) & 1;
        int R = e.size( k ).first, C = e.size( k ).second;
        bool ok = true;
        for( size_t i=0; i<s.size(); ++i ) {
            ViewOp o; o.o = s[i];
            if( s[i] == 'b' ) {
                bool last = s.find( 'b', i+1 ) == std::string::npos;
                bool flip = std::count( s.begin()+i, s.end(), 't' ) & 1;
                int wr = flip? nc: nr, wc = flip? nr: nc;
                if( wr > R || wc > C ) { ok = false; break; }
                o.nr = last && wr >= 0? wr: r.range( std::max( wr, 0 ), R );
                o.nc = last && wc >= 0? wc: r.range( std::max( wc, 0 ), C );
                o.fr = r.range( 0, R-o.nr ); o.fc = r.range( 0, C-o.nc );
                R = o.nr; C = o.nc;
            }
            else if( s[i] == 't' ) std::swap( R, C );
            else o.c = r.pick( std::vector<double>{ -1, 0.5, 2, -0.25, 0, 1 } );
            x.ops.push_back( o );
        }
        (void)odd;
        if( ok && ( nr < 0 || R == nr ) && ( nc < 0 || C == nc ) ) return true;
    }
    return false;
}
static const std::vector<std::string> Wr{ "", "b", "t", "bb", "bt", "tb", "tt" }, As{ "", "b", "bb", "tb" }, Whole{ "" }, SomeOf{ "", "b", "t", "s" },
    Rd{ "", "b", "t", "s", "bb", "bt", "tb", "tt", "bs", "ts", "sb", "st", "ss" }, RdFast{ "", "b", "t", "s", "bs" }, Rows{ "", "b", "s", "bb", "bs", "sb" };
static const std::vector<std::string>& reads( int k ) { return k < NFlex? Rd: RdFast; }

static void random( Rng& r ) {
    Env e;
    int ops = r.range( 10, 30 );
    auto fill = [&]( int k ) {
        std::vector<std::pair<Index,double>> q;
        int R = r.range( 0, 5 ), C = r.range( 0, 5 );
        if( r.chance( 30 ) ) C = R;
        int dens = r.pick( std::vector<int>{ 20, 50, 90 } );
        for( int i=0; i<R; ++i ) for( int j=0; j<C; ++j ) if( r.chance( dens ) ) q.push_back( { Index( i, j ), r.chance( 10 )? 0: r.dyadic( 4, 2 ) } );
        for( int i=q.size()-1; i>0; --i ) std::swap( q[i], q[r.below( i+1 )] );
        e.data( k, q, r.chance( 80 ), R, C );
    };
    for( int k=0; k<NM; ++k ) fill( k );
    auto at = [&]( int k, int i, int j ) { return k < NFlex? e.m[k].get( i, j ): e.f[k-NFlex].get( i, j ); };
    auto has = [&]( int k, int i, int j ) { return k < NFlex? e.m[k].hasIndex( Index( i, j ) ): e.f[k-NFlex].hasIndex( Index( i, j ) ); };
    auto tidy = [&] {
        // keep the numbers such that everything stays exact
        for( int k=0; k<NM; ++k ) {
            bool bad = false;
            for( int i=0, R=e.size( k ).first; i<R; ++i ) for( int j=0, C=e.size( k ).second; j<C; ++j ) { double a = at( k, i, j ); bad = bad || std::fabs( a ) > 64 || std::floor( a*1024 ) != a*1024; }
            if( bad ) fill( k );
        }
    };
    for( int q=0; q<ops; ++q ) {
        tidy();
        int k = r.below( NM ), j;
        do j = r.below( NM ); while( j == k );
        int kf = r.below( NFlex ), jf = ( kf + r.range( 1, NM-1 ) ) % NM;
        View d, s, s2;
        auto n = [&] { return e.size( d ); };
        switch( r.below( 20 ) ) {
        case 0: if( r.chance( 50 ) ) fill( k ); else e.create( kf, r.below( 6 ), r.below( 6 ) ); break;
        case 1: e.resize( kf, r.below( 6 ), r.below( 6 ) ); break;
        case 2: if( r.chance( 50 ) ) e.shrink( kf ); else if( r.chance( 30 ) ) e.zero( k ); break;
        case 3: if( randView( r, e, j, -1, -1, reads( j ), s ) ) e.copy( k, s, r.below( 2 ) ); break;
        case 4: if( randView( r, e, j, -1, -1, reads( j ), s ) ) { d.k = k; e.assign( d, s ); } break;
        case 5: case 6: {
            int nr = r.range( 0, e.size( kf ).first ), nc = r.range( 0, e.size( kf ).second );
            if( randView( r, e, kf, nr, nc, As, d ) && randView( r, e, jf, d.ops.empty()? -1: nr, d.ops.empty()? -1: nc, reads( jf ), s ) ) e.assign( d, s );
            break;
        }
        case 7: case 8: case 9:
            if( !randView( r, e, k, -1, -1, Wr, d ) || !randView( r, e, j, n().first, n().second, reads( j ), s ) ) {
                if( !randView( r, e, j, -1, -1, reads( j ), s ) || !randView( r, e, k, e.size( s ).first, e.size( s ).second, Wr, d ) ) break;
            }
            if( k >= NFlex ) {
                // every element must be there
                bool all = true;
                e.src( s, [&]( const auto& a ) { e.dst( d, [&]( auto& b ) { for( int i=0, R=n().first; i<R; ++i ) for( int c=0, C=n().second; c<C; ++c ) all = all && ( b.hasIndex( Index( i, c ) ) || !a.hasIndex( Index( i, c ) ) ); } ); } );
                if( !all ) { View w, v; w.k = j; v.k = k; e.assign( v, w ); break; }
            }
            e.add( d, s, r.chance( 50 ) );
            break;
        case 10: case 11:
            if( randView( r, e, k, -1, -1, Wr, d ) && n().first && n().second ) e.set( d, r.below( n().first ), r.below( n().second ), r.dyadic( 4, 2 ), r.below( 2 ) );
            break;
        case 12:
            if( randView( r, e, kf, -1, -1, Wr, d ) && n().first && n().second ) e.remove( d, r.below( n().first ), r.below( n().second ) );
            break;
        case 13: if( r.chance( 30 ) ) { if( randView( r, e, k, -1, -1, k < NFlex? Wr: Whole, d ) ) e.clear( d ); } break;
        case 14: case 15:
            if( randView( r, e, kf, -1, -1, Rows, s ) && randView( r, e, jf, e.size( s ).second, -1, reads( jf ), s2 ) ) e.times( r.below( NM ), s, s2 );
            break;
        case 16: {
            int sq = r.range( 0, std::min( e.size( kf ).first, e.size( kf ).second ) );
            if( randView( r, e, kf, sq, sq, { "", "b" }, d ) && randView( r, e, jf, sq, sq, jf < NFlex? SomeOf: Whole, s ) ) e.mul( d, s );
            break;
        }
        case 17:
            if( r.chance( 30 ) ) e.identity( k, r.below( 5 ), r.pick( std::vector<double>{ 1, -2, 0.5 } ) );
            else {
                int sq = r.range( 0, std::min( e.size( k ).first, e.size( k ).second ) );
                if( !randView( r, e, k, sq, sq, Wr, d ) ) break;
                bool all = true;
                e.dst( d, [&]( auto& b ) { for( int i=0; i<sq; ++i ) all = all && b.hasIndex( Index( i, i ) ); } );
                if( all || k < NFlex ) e.addid( d, r.pick( std::vector<double>{ 1, -2, 0.5 } ) );
            }
            break;
        default:
            if( !randView( r, e, k, -1, -1, reads( k ), s ) ) break;
            e.look( s );
            if( r.chance( 40 ) ) e.norms( s );
            if( r.chance( 40 ) ) e.text( s );
            bool left = r.chance( 50 );
            std::vector<double> x( left? e.size( s ).first: e.size( s ).second );
            for( auto& a : x ) a = r.dyadic( 3, 2 );
            e.vec( s, x, left );
        }
    }
    (void)has;
    tidy();
    for( int k=0; k<NM; ++k ) checkAll( e, k, r );
}

int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { Rng r( i ); scenario( "sparse-gen-" + std::to_string( i++ ) ); replay( j, r ); }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*6011 + i );
            scenario( "sparse-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
        }
    } );
}
