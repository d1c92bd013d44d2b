// obs.cpp: observers, terminating observers and scoped registrations.
// arguments: gen FILE, or: seed number
#include "json.h"
#include "ode_num_int/infra/cxx_observers.h"
using namespace ctm;

typedef cxx::Observers<int, std::string> S;
typedef cxx::TerminatingObservers<int, std::string> T;

struct World {
    // signals 1 and 2 return nothing, 3 and 4 return a boolean value; 2 forwards to 1 and 4 to 3
    S s[2];
    T t[2];
    std::vector<int> tags;
    std::vector<std::string> args;
    int last = 0;
    std::unique_ptr< cxx::ScopedIdentifiedElement<S::cb_type> > hs[4];
    std::unique_ptr< cxx::ScopedIdentifiedElement<T::cb_type> > ht[4];
    int where[4] = { 0, 0, 0, 0 };          // signal of the holder, for the log
    static bool term( int sig ) { return sig > 2; }
    S& sv( int sig ) { return s[sig-1]; }
    T& tv( int sig ) { return t[sig-3]; }
    std::string arg( int k, const std::string& a ) { return std::to_string( k ) + "/" + a; }
    S::cb_type cbs( int tag ) { return [this, tag]( int k, std::string a ) { tags.push_back( tag ); args.push_back( arg( k, a ) ); }; }
    T::cb_type cbt( int tag, bool ret ) { return [this, tag, ret]( int k, std::string a ) { tags.push_back( tag ); args.push_back( arg( k, a ) ); return ret; }; }
    std::vector<int> ids( int sig ) {
        std::vector<int> r;
        if( term( sig ) ) { for( auto& e : tv( sig ) ) r.push_back( e.first ); }
        else for( auto& e : sv( sig ) ) r.push_back( e.first );
        return r;
    }
    void add( int sig, bool ret ) {
        int tag = ++last, id = term( sig )? tv( sig ).add( cbt( tag, ret ) ): sv( sig ).add( cbs( tag ) );
        Ev( "add" ).i( "sig", sig ).i( "tag", tag ).b( "ret", term( sig ) && ret ).i( "id", id ).vi( "ids", ids( sig ) );
    }
    void fwd( int sig, int to ) {
        int id = term( sig )? cxx::forwardObservers( tv( sig ), tv( to ) ): cxx::forwardObservers( sv( sig ), sv( to ) );
        Ev( "fwd" ).i( "sig", sig ).i( "to", to ).i( "id", id ).vi( "ids", ids( sig ) );
    }
    void remove( int sig, int id ) {
        if( term( sig ) ) tv( sig ).remove( id ); else sv( sig ).remove( id );
        Ev( "remove" ).i( "sig", sig ).i( "id", id ).vi( "ids", ids( sig ) );
    }
    void clear( int sig ) {
        if( term( sig ) ) tv( sig ).clear(); else sv( sig ).clear();
        Ev( "clear" ).i( "sig", sig ).vi( "ids", ids( sig ) );
    }
    bool held( int h ) { return hs[h] || ht[h]; }
    void hold( int h, int sig, bool ret, bool maker ) {
        int tag = ++last;
        if( term( sig ) )
            ht[h].reset( maker? new cxx::ScopedIdentifiedElement<T::cb_type>( cxx::makeScopedIdentifiedElement( tv( sig ), cbt( tag, ret ) ) ):
                         new cxx::ScopedIdentifiedElement<T::cb_type>( tv( sig ), cbt( tag, ret ) ) );
        else
            hs[h].reset( maker? new cxx::ScopedIdentifiedElement<S::cb_type>( cxx::makeScopedIdentifiedElement( sv( sig ), cbs( tag ) ) ):
                         new cxx::ScopedIdentifiedElement<S::cb_type>( sv( sig ), cbs( tag ) ) );
        where[h] = sig;
        Ev( "hold" ).i( "h", h+1 ).i( "sig", sig ).i( "tag", tag ).b( "ret", term( sig ) && ret ).vi( "ids", ids( sig ) );
    }
    void end( const char *how, int h ) {
        int sig = where[h];
        if( !strcmp( how, "drop" ) ) { hs[h].reset(); ht[h].reset(); where[h] = 0; }
        else { if( hs[h] ) hs[h]->finish(); if( ht[h] ) ht[h]->finish(); }
        Ev( how ).i( "h", h+1 ).i( "sig", sig ).vi( "ids", sig? ids( sig ): std::vector<int>() );
    }
    void move( int h, int g ) {
        if( hs[h] ) hs[g].reset( new cxx::ScopedIdentifiedElement<S::cb_type>( std::move( *hs[h] ) ) );
        if( ht[h] ) ht[g].reset( new cxx::ScopedIdentifiedElement<T::cb_type>( std::move( *ht[h] ) ) );
        where[g] = where[h];
        Ev( "move" ).i( "from", h+1 ).i( "to", g+1 ).i( "sig", where[g] ).vi( "ids", ids( where[g] ) );
    }
    void empty( int sig ) { Ev( "empty" ).i( "sig", sig ).b( "r", term( sig )? tv( sig ).empty(): sv( sig ).empty() ); }
    void notify( int sig, int k, const std::string& a ) {
        tags.clear(); args.clear();
        bool r = false;
        if( term( sig ) ) r = tv( sig )( k, a ); else sv( sig )( k, a );
        Ev( "notify" ).i( "sig", sig ).s( "arg", arg( k, a ) ).vi( "tags", tags ).raw( "args", jvecs( args ) ).b( "r", r );
    }
    void notifyAll( int k ) { for( int i=1; i<=4; ++i ) notify( i, k, "a string that is too long to be kept inside " + std::to_string( k ) ); }
};

// the same requests on the signals of either kind
static void replay( const Json& j, bool term ) {
    World w;
    int o = term? 2: 0, n = 0;
    for( auto& e : j["ops"].a ) {
        std::string op = e["op"].s;
        int a = e["a"].i(), b = e["b"].i();
        if( op == "add" ) w.add( a+o, e["r"].b );
        else if( op == "fwd" ) w.fwd( a+o, b+o );
        else if( op == "remove" ) w.remove( a+o, w.ids( a+o ).at( b-1 ) );
        else if( op == "clear" ) w.clear( a+o );
        else if( op == "hold" ) {
            if( w.held( a-1 ) ) w.end( "drop", a-1 );       // one that was moved from or finished
            w.hold( a-1, b+o, e["r"].b, n & 1 );
        }
        else if( op == "move" ) {
            if( w.held( b-1 ) ) w.end( "drop", b-1 );
            w.move( a-1, b-1 );
        }
        else w.end( op.c_str(), a-1 );
        w.notifyAll( n++ );
        w.empty( 1+o ); w.empty( 2+o );
    }
    for( int h=0; h<4; ++h ) w.end( "drop", h );
    w.notifyAll( n );
}

int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { scenario( "obs-gen-" + std::to_string( i ) ); replay( j, i & 1 ); ++i; }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*5381 + i );
            scenario( "obs-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            World w;
            std::map<int, std::vector<int>> mine;       // registrations that no holder ends
            int len = r.range( 5, 60 );
            for( int q=0; q<len; ++q ) {
                int sig = r.range( 1, 4 ), h = r.below( 4 ), g = r.below( 4 );
                switch( r.below( 12 ) ) {
                case 0: case 1: case 2: w.add( sig, r.chance( 30 ) ); mine[sig].push_back( w.ids( sig ).back() ); break;
                case 3: if( sig == 2 || sig == 4 ) { w.fwd( sig, sig-1 ); mine[sig].push_back( w.ids( sig ).back() ); } break;
                case 4: case 5: if( !mine[sig].empty() ) {
                        int k = r.below( mine[sig].size() );
                        w.remove( sig, mine[sig][k] );
                        mine[sig].erase( mine[sig].begin() + k );
                    } break;
                case 6: case 7: if( w.held( h ) ) w.end( "drop", h ); w.hold( h, sig, r.chance( 30 ), r.chance( 50 ) ); break;
                case 8: w.end( r.chance( 50 )? "finish": "drop", h ); break;
                case 9: if( h != g && w.held( h ) ) { if( w.held( g ) ) w.end( "drop", g ); w.move( h, g ); } break;
                case 10: if( r.chance( 30 ) && w.where[0] != sig && w.where[1] != sig && w.where[2] != sig && w.where[3] != sig ) { w.clear( sig ); mine[sig].clear(); } break;
                default: w.empty( sig );
                }
                if( r.chance( 50 ) ) w.notify( sig, q, std::string( r.below( 60 ), 'x' ) );
            }
            w.notifyAll( len );
        }
    } );
}
