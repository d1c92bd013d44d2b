// fac.cpp: histories of factories and of holders.
// arguments: gen FILE, or: seed number
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include "json.h"
#include "ode_num_int/infra/Factory.h"
#include "ode_num_int/alg/interfaces/VectorMapping.h"
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;

// ---- factories
template< int I > struct Face : Factory< Face<I> > {
    virtual int kind() const = 0;
};
template< int I, int K > struct Type : Face<I>, FactoryMixin< Type<I,K>, Face<I> > {
    int kind() const { return K; }
};
template< int I > struct Plain : Face<I> {     // does not know its name
    int k;
    explicit Plain( int k_ ) : k( k_ ) {}
    int kind() const { return k; }
};
struct Fac {
    virtual ~Fac() {}
    virtual void add( const std::string& n, int t, bool mixin ) = 0;
    virtual void create( int f, const std::string& n ) = 0;
    virtual void list( int f, const std::vector<std::string>& names ) = 0;
};
template< int I > struct FacOf : Fac {
    std::vector< std::shared_ptr< Face<I> > > made;
    void add( const std::string& n, int t, bool mixin ) {
        if( !mixin ) { Factory< Face<I> >::registerType( n, [t] { return std::make_shared< Plain<I> >( t ); } ); return; }
        switch( t ) {
        case 0: { typename Type<I,0>::Registrator r( n ); break; }
        case 1: { typename Type<I,1>::Registrator r( n ); break; }
        case 2: { typename Type<I,2>::Registrator r( n ); break; }
        default: { typename Type<I,3>::Registrator r( n ); }
        }
    }
    void create( int f, const std::string& n ) {
        std::shared_ptr< Face<I> > p;
        bool thrown = false;
        try { p = Factory< Face<I> >::newInstance( n ); } catch( std::exception& ) { thrown = true; }
        bool fresh = true;
        for( auto& q : made ) if( q == p ) fresh = false;
        if( p ) made.push_back( p );
        Ev( "create" ).i( "face", f ).s( "name", n ).b( "thrown", thrown ).i( "type", p? p->kind(): -1 ).b( "fresh", fresh )
            .s( "label", p? TypeIdGetter< Face<I> >::typeId( p ): "" );
    }
    void list( int f, const std::vector<std::string>& names ) {
        std::vector<std::string> known;
        for( auto& n : names ) if( Factory< Face<I> >::isTypeRegistered( n ) ) known.push_back( n );
        Ev( "list" ).i( "face", f ).raw( "names", jvecs( Factory< Face<I> >::registeredTypes() ) ).raw( "asked", jvecs( names ) ).raw( "known", jvecs( known ) );
    }
};
struct Factories {
    std::unique_ptr<Fac> f[3];
    Factories() { f[0].reset( new FacOf<0> ); f[1].reset( new FacOf<1> ); f[2].reset( new FacOf<2> ); }
    std::set< std::pair<int,std::string> > taken;
    void reg( int i, const std::string& n, int t, bool mixin ) {
        if( !taken.insert( { i, n } ).second ) return;      // names are registered once
        bool thrown = false;
        try { f[i]->add( n, t, mixin ); } catch( std::exception& ) { thrown = true; }
        Ev( "register" ).i( "face", i ).s( "name", n ).i( "type", t ).b( "mixin", mixin ).b( "thrown", thrown );
    }
};

// ---- holders
CTM_DEF_PROP_CLASS( IntHolder, int, int, value, setValue )
CTM_DEF_PROP_REF_CLASS( RefHolder, int, value, constValue )
CTM_DEF_NOTIFIED_PROP_CLASS( IntNotifier, int, int, value, setValue, onValueChanged, offValueChanged )
CTM_DEF_NOTIFIED_PROP_CLASS( StrNotifier, std::string, const std::string&, text, setText, onTextChanged, offTextChanged )
struct Num : VectorMapping<VD> {
    int v;
    explicit Num( int v_ ) : v( v_ ) {}
    unsigned inputSize() const { return 0; }
    unsigned outputSize() const { return 0; }
    void map( V&, const V& ) const {}
};
struct Calls { std::vector<std::string> c; };
struct Held {
    virtual ~Held() {}
    virtual int get() const = 0;
    virtual int cget() const = 0;
    virtual void set( int v ) = 0;
    virtual int watch( int id, bool arg, int when, int then, Calls *c ) { return -1; }
    virtual void unwatch( int ) {}
    virtual bool notifies() const { return true; }
};
static void called( Calls *c, int id, const std::string& v, int now ) { c->c.push_back( "[" + std::to_string( id ) + "," + v + "," + std::to_string( now ) + "]" ); }
template< class H > struct Two { H a, b; };     // neighbours must not hear of each other
struct HInt : Held { IntHolder h; int get() const { return h.value(); } int cget() const { return h.valueConstRef(); } void set( int v ) { h.setValue( v ); } bool notifies() const { return false; } };
struct HRef : Held { RefHolder h; int get() const { return const_cast<RefHolder&>( h ).value(); } int cget() const { return h.constValue(); } void set( int v ) { h.value() = v; } bool notifies() const { return false; } };
struct HIntN : Held {
    IntNotifier h;
    int get() const { return h.value(); }
    int cget() const { return h.valueConstRef(); }
    void set( int v ) { h.setValue( v ); }
    int watch( int id, bool arg, int when, int then, Calls *c ) {
        if( !arg ) return h.onValueChanged_0( [=] { called( c, id, "\"?\"", get() ); } );
        return id % 2? h.onValueChanged_1( [=]( int v ) { called( c, id, std::to_string( v ), get() ); if( v == when ) set( then ); } ):
                       h.onValueChanged( [=]( int v ) { called( c, id, std::to_string( v ), get() ); if( v == when ) set( then ); } );
    }
    void unwatch( int i ) { h.offValueChanged( i ); }
};
struct HStr : Held {
    StrNotifier h;
    HStr() : h( "0" ) {}
    int get() const { return std::stoi( h.text() ); }
    int cget() const { return std::stoi( h.textConstRef() ); }
    void set( int v ) { h.setText( std::to_string( v ) ); }
    int watch( int id, bool arg, int when, int then, Calls *c ) {
        if( !arg ) return h.onTextChanged( [=] { called( c, id, "\"?\"", get() ); } );
        return h.onTextChanged_1( [=]( const std::string& s ) { int v = std::stoi( s ); called( c, id, s, get() ); if( v == when ) set( then ); } );
    }
    void unwatch( int i ) { h.offTextChanged( i ); }
};
struct HMap : Held {
    MappingHolder<VD> h;
    std::vector< std::shared_ptr<Num> > pool;
    static int num( const std::shared_ptr< VectorMapping<VD> >& p ) { auto n = dynamic_cast<const Num*>( p.get() ); return n? n->v: 0; }
    int get() const { return num( h.mapping() ); }
    int cget() const { return num( h.mappingConstRef() ); }
    void set( int v ) { h.setMapping( v? std::make_shared<Num>( v ): std::shared_ptr<Num>() ); }
    int watch( int id, bool arg, int when, int then, Calls *c ) {
        if( !arg ) return h.onMappingChanged( [=] { called( c, id, "\"?\"", get() ); } );
        return h.onMappingChanged_1( [=]( std::shared_ptr< VectorMapping<VD> > p ) { int v = num( p ); called( c, id, std::to_string( v ), get() ); if( v == when ) set( then ); } );
    }
    void unwatch( int i ) { h.offMappingChanged( i ); }
};
struct Holding {
    std::unique_ptr<Held> h, other;
    std::vector< std::pair<int,int> > obs;      // our number, the holder's
    Calls calls, far;
    int next = 0;
    static Held *make( int k ) { switch( k ) { case 0: return new HInt; case 1: return new HRef; case 2: return new HIntN; case 3: return new HStr; default: return new HMap; } }
    explicit Holding( int kind ) : h( make( kind ) ), other( make( kind ) ) {
        Ev( "holder" ).i( "kind", kind ).i( "now", h->get() );
        other->watch( 99, false, -1, 0, &far );
    }
    void set( int v ) {
        calls.c.clear(); far.c.clear();
        h->set( v );
        std::string j = "[";
        for( auto& a : calls.c ) j += ( j.size() > 1? ",": "" ) + a;
        Ev( "set" ).i( "v", v ).raw( "calls", j + "]" ).i( "now", h->get() ).i( "const", h->cget() ).i( "other", other->get() ).i( "far", far.c.size() );
    }
    void watch( bool arg, int when, int then ) {
        int id = next++;
        if( !arg ) when = -1;
        obs.push_back( { id, h->watch( id, arg, when, then, &calls ) } );
        Ev( "watch" ).i( "id", id ).b( "arg", arg ).i( "when", when ).i( "then", then );
    }
    void unwatch( int k ) {
        Ev( "unwatch" ).i( "id", obs[k].first );
        h->unwatch( obs[k].second );
        obs.erase( obs.begin()+k );
    }
};

static const std::vector<std::string> names = { "a", "b", "c", "a b", "" };
static void random( Rng& r ) {
    if( r.chance( 50 ) ) {
        Factories f;
        int ops = r.range( 3, 14 );
        for( int q=0; q<ops; ++q ) {
            int i = r.below( 3 );
            auto& n = r.pick( names );
            switch( r.below( 4 ) ) {
            case 0: case 1: f.reg( i, n, r.below( 4 ), r.chance( 80 ) ); break;
            case 2: f.f[i]->create( i, n ); break;
            default: f.f[i]->list( i, names );
            }
        }
        for( int i=0; i<3; ++i ) { f.f[i]->list( i, names ); for( auto& n : names ) f.f[i]->create( i, n ); }
        return;
    }
    Holding h( r.below( 5 ) );
    int ops = r.range( 3, 14 );
    for( int q=0; q<ops; ++q ) {
        int w = r.below( 4 );
        if( w == 0 && h.h->notifies() && h.obs.size() < 5 ) { int when = r.chance( 40 )? r.below( 5 ): -1; h.watch( r.chance( 70 ), when, when < 0? 0: r.range( when+1, 5 ) ); }
        else if( w == 1 && !h.obs.empty() ) h.unwatch( r.below( h.obs.size() ) );
        else h.set( r.below( 6 ) );
    }
}
static void replay( const Json& j, int i ) {
    if( j["mode"].s == "factory" ) {
        Factories f;
        for( auto& o : j["ops"].a ) {
            int k = o["face"].i();
            if( o["op"].s == "register" ) f.reg( k, o["name"].s, o["type"].i(), true ); else f.f[k]->create( k, o["name"].s );
            f.f[0]->list( 0, names ); f.f[1]->list( 1, names );
        }
        for( int k=0; k<2; ++k ) for( auto n : { "a", "b" } ) f.f[k]->create( k, n );
        return;
    }
    Holding h( 2 + i%3 );
    for( auto& o : j["ops"].a ) {
        if( o["op"].s == "set" ) h.set( o["v"].i() );
        else if( o["op"].s == "watch" ) h.watch( o["when"].i() >= 0 || i%2, o["when"].i(), o["then"].i() );
        else h.unwatch( o["k"].i() - 1 );
    }
    for( int v=0; v<3; ++v ) h.set( v );
}
// every scenario runs in a process of its own: registrations last as long as the process
static void alone( const std::function<void()>& f ) {
    fflush( traceFile() );
    pid_t p = fork();
    if( p == 0 ) { f(); Ev( "end" ); fflush( traceFile() ); _exit( 0 ); }
    int st = 0;
    waitpid( p, &st, 0 );
    if( st != 0 ) Ev( "abort" ).i( "status", st );
    fseek( traceFile(), 0, SEEK_END );
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { alone( [&] { scenario( "fac-gen-" + std::to_string( i ) ); replay( j, i ); } ); ++i; }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9203 + i );
            alone( [&] { scenario( "fac-" + std::to_string( seed ) + "-" + std::to_string( i ) ); random( r ); } );
        }
    } );
}
