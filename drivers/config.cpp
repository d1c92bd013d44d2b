// config.cpp: histories of a configuration.
// arguments: gen FILE, or: seed number
// flags: -O1 -fno-sanitize=all
#include "params.h"
template< class I > static void component( const char *name, const std::shared_ptr<I>& c, Flat& f ) {
    f.push_back( { { name }, c? TypeIdGetter<I>::typeId( c ): "" } );
    if( auto o = dynamic_cast< const OP* >( c.get() ) ) flatten( o->parameters(), { name }, f );
}
struct Given { std::string name, text; bool number; };
struct Cfg {
    // A configuration of its own, or one whose provider is now the one and now the other of two
    typedef OdeSolverConfiguration<VD>::ParameterProvider Provider;
    OdeSolverConfiguration<VD> own;
    ComponentConfiguration plain;
    std::shared_ptr<Provider> prov[2];
    int cur = 0;
    ComponentConfiguration& c;
    explicit Cfg( bool two = false ) : plain( [this]() { return prov[0]; } ), c( two? plain: own ) { if( two ) prov[0] = std::make_shared<Provider>(); }
    const Provider *provider() { return prov[0]? prov[cur].get(): own.parameterProvider(); }
    void provide() {
        cur = 1 - cur;
        if( !prov[cur] ) prov[cur] = std::make_shared<Provider>();
        c.setParameterProvider( prov[cur] );
        Ev( "provide" );
    }
    void help( const Strs& path, bool formatted ) {
        Ev( "help" ).raw( "path", jstrs( path ) ).b( "none", ( formatted? c.helpOnValue( join( path ) ): c.helpOnValue( path ) ) == "No help is available" );
    }
    Flat tree() { Flat f; flatten( c.parameters(), Strs(), f ); return f; }
    void show() { Ev( "tree" ).raw( "tree", jflat( tree() ) ); }
    void assign( const Strs& path, bool formatted, const OP::Value& v, const std::string& text, bool number, const std::vector<Given>& given = {} ) {
        bool thrown = false;
        try { if( formatted ) c.setValue( join( path ), v ); else c.setValue( path, v ); } catch( std::exception& ) { thrown = true; }
        std::string g = "[";
        for( auto& i : given ) g += ( g.size() > 1? ",[": "[" ) + q( i.name ) + "," + q( i.text ) + ( i.number? ",true,[]]": ",false,[]]" );
        Ev( "assign" ).raw( "path", jstrs( path ) ).s( "text", text ).b( "number", number ).raw( "given", g + "]" ).b( "thrown", thrown );
    }
    void get( const Strs& path, bool formatted ) {
        std::string t;
        bool thrown = false;
        try { t = formatted? c.value( join( path ) ).value<std::string>(): c.value( path ).value<std::string>(); } catch( std::exception& ) { thrown = true; }
        Ev( "get" ).raw( "path", jstrs( path ) ).b( "thrown", thrown ).s( "text", t );
    }
    void sub( const Strs& path, bool formatted ) {
        Flat f;
        bool thrown = false;
        try { flatten( formatted? c.parameters( join( path ) ): c.parameters( path ), Strs(), f ); } catch( std::exception& ) { thrown = true; }
        Ev( "sub" ).raw( "path", jstrs( path ) ).b( "thrown", thrown ).raw( "tree", jflat( f ) );
    }
    void built() {
        auto p = provider();
        Flat f;
        component( "rhs", p->odeRhs(), f );
        component( "solver", p->solver(), f );
        component( "reference_solver", p->refSolver(), f );
        component( "output_stats", p->statisticsOutput(), f );
        component( "output_con", p->stepConsoleOutput(), f );
        component( "output_file", p->stepFileOutput(), f );
        component( "init_state", p->initState(), f );
        f.push_back( { { "time" }, text( p->odeSolverDuration() ) } );
        f.push_back( { { "output_timing" }, text( p->odeSolverOutputTiming() ) } );
        f.push_back( { { "simout_basename" }, p->simoutCustomBaseName() } );
        Strs st;
        std::string time = "none";
        if( p->initState() ) {
            time = text( p->initState()->initialTime() );
            for( auto x : p->initState()->initialState() ) st.push_back( text( x ) );
        }
        Ev( "built" ).raw( "tree", jflat( f ) ).s( "time", time ).raw( "state", jstrs( st ) );
    }
};
static bool isChoice( const OP::Parameters& p, const Strs& path ) {
    auto q = &p;
    for( size_t i=0; i<path.size(); ++i ) {
        auto it = q->find( path[i] );
        if( it == q->end() ) return false;
        if( i+1 == path.size() ) return bool( it->second.typeRegistryGetter() );
        q = it->second.nestedParameters();
        if( !q ) return false;
    }
    return false;
}
static Strs typesAt( const OP::Parameters& p, const Strs& path ) {
    auto q = &p;
    for( size_t i=0; i+1<path.size(); ++i ) q = q->find( path[i] )->second.nestedParameters();
    return q->find( path.back() )->second.typeRegistryGetter()();
}
static void random( Rng& r ) {
    Cfg c( r.chance( 25 ) );
    int ops = r.range( 3, 12 );
    if( r.chance( 50 ) ) c.show();
    for( int k=0; k<ops; ++k ) {
        if( c.prov[0] && r.chance( 25 ) ) { c.provide(); if( r.chance( 50 ) ) c.show(); }
        auto tree = c.tree();
        // a path, mostly of something that is there, and rather of a choice than of a number
        Strs path;
        for( int t=0; t<3; ++t ) { path = r.pick( tree ).first; if( isChoice( c.c.parameters( "" ), path ) || r.chance( 40 ) ) break; }
        if( r.chance( 6 ) ) {
            switch( r.below( 5 ) ) {
            case 0: path.back() += "x"; break;
            case 1: path.push_back( r.pick( tree ).first.back() ); break;
            case 2: path.insert( path.begin() + r.below( path.size() ), "" ); break;
            case 3: path.clear(); break;
            default: path.insert( path.begin(), r.pick( tree ).first.front() );
            }
        }
        bool formatted = r.chance( 50 );
        if( formatted && join( path ).empty() ) path.clear();
        if( r.chance( 12 ) ) { c.get( path, formatted ); continue; }
        if( r.chance( 8 ) ) { c.help( path, formatted ); continue; }
        if( r.chance( 8 ) ) { if( !path.empty() && r.chance( 60 ) ) path.pop_back(); if( formatted ) while( !path.empty() && path.back().empty() ) path.pop_back(); c.sub( path, formatted ); continue; }
        bool sized = !path.empty() && ( path.back() == "size" || path.back() == "sizex" ), choice = isChoice( c.c.parameters( "" ), path );
        if( sized ) { static const Strs ok = { "0", "1", "2", "3", "x", "-1", "0.5" }; auto& t = r.pick( ok ); c.assign( path, formatted, t, t, false ); }
        else if( choice && r.chance( 85 ) ) {
            auto ty = typesAt( c.c.parameters( "" ), path );
            if( path.back() == "itperf" ) ty.push_back( "default" ); else if( r.chance( 40 ) ) ty.push_back( "" );
            if( ty.empty() ) ty.push_back( "" );
            auto t = r.pick( ty );
            if( r.chance( 30 ) && !t.empty() && path.back() != "algsolver" ) {
                // some parameters of the new component, and some that it does not have
                OP::Parameters nested;
                std::vector<Given> given;
                static const Strs names = { "h_init", "h_min", "tolerance", "mode", "d", "n", "c", "a", "f", "file_name", "max_steps", "size", "time", "x0", "x2", "threshold", "width", "abs_tol",
                    "lazy_iterations", "stepsizectl", "reference_solver", "nothing", "symmetric", "gravity_acceleration", "omega", "friction", "alpha" };
                for( int i=r.range( 1, 4 ); i>0; --i ) {
                    auto& n = r.pick( names );
                    if( n == "size" ) nested[n] = OP::Value( r.range( 0, 3 ) );
                    else if( n == "mode" ) nested[n] = r.chance( 80 )? "high": "other";
                    else if( n == "friction" ) nested[n] = "tabular";
                    else if( n == "stepsizectl" ) nested[n] = r.chance( 70 )? "simple": "none";
                    else if( n == "reference_solver" ) nested[n] = r.chance( 80 )? "rk4": "none";
                    else nested[n] = r.chance( 90 )? r.pick( Strs{ "0", "1", "2", "3" } ): r.pick( texts );
                }
                for( auto& i : nested ) given.push_back( { i.first, i.second.value<std::string>(), false } );
                c.assign( path, formatted, OP::Value( t, nested ), t, false, given );
            }
            else c.assign( path, formatted, t, t, false );
        }
        else switch( r.below( 10 ) ) {
        case 0: { double x = number( r ); c.assign( path, formatted, x, text( x ), true ); break; }
        case 1: { double x = number( r ); c.assign( path, formatted, text( x ), text( x ), true ); break; }
        case 2: { int x = r.range( -1, 3 ); c.assign( path, formatted, x, std::to_string( x ), false ); break; }
        case 3: { bool x = r.chance( 50 ); c.assign( path, formatted, x, x? "true": "false", false ); break; }
        case 4: { auto& t = r.pick( odd ); c.assign( path, formatted, t, t, false ); break; }
        case 5: { auto& t = r.pick( enums ); c.assign( path, formatted, t, t, false ); break; }
        case 6: { auto& t = r.pick( types ); c.assign( path, formatted, t, t, false ); break; }
        default: { auto& t = r.pick( texts ); c.assign( path, formatted, t, t, false ); }
        }
        if( r.chance( 70 ) ) c.show();
        if( r.chance( 25 ) ) c.built();
    }
    c.built();
    c.show();
}
static void replay( const Json& j, int i ) {
    Cfg c;
    int k = 0;
    for( auto& o : j["ops"].a ) {
        Strs path;
        for( auto& n : o["path"].a ) path.push_back( n.s );
        c.assign( path, ( i + k++ )%2, o["text"].s, o["text"].s, false );
        c.show();
    }
    c.built();
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        OdeNumIntClassesRegistrator<VD> reg;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> models;
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { scenario( "config-gen-" + std::to_string( i ) ); replay( j, i ); Ev( "end" ); ++i; }
            return;
        }
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9311 + i );
            scenario( "config-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            random( r );
            Ev( "end" );
        }
    } );
}
