// pars.cpp: components given parameters, and values of parameters.
// arguments: seed number
// flags: -O1 -fno-sanitize=all
#include "params.h"
static Flat flat( const OP::Parameters& p ) { Flat f; flatten( p, Strs(), f ); return f; }
struct Given { std::string name, text; bool number; std::vector<Given> nested; };
static std::string jgiven( const std::vector<Given>& v ) {
    std::string g = "[";
    for( auto& i : v ) g += ( g.size() > 1? ",[": "[" ) + q( i.name ) + "," + q( i.text ) + ( i.number? ",true,": ",false," ) + jgiven( i.nested ) + "]";
    return g + "]";
}
typedef std::vector< std::pair<std::string, std::string> > Gets;
static std::string jgets( const Gets& g ) { std::string r = "["; for( auto& i : g ) r += ( r.size() > 1? ",[": "[" ) + q( i.first ) + "," + q( i.second ) + "]"; return r + "]"; }
template< class I > struct Typed { static void get( const std::shared_ptr<I>&, Gets& ) {} };
template<> struct Typed< OdeSolver<VD> > { static void get( const std::shared_ptr< OdeSolver<VD> >& s, Gets& g ) {
    g.push_back( { "h_init", text( s->initialStepSize() ) } ); g.push_back( { "h_min", text( s->stepSizeMinThreshold() ) } ); } };
template<> struct Typed< NewtonSolverInterface<VD> > { static void get( const std::shared_ptr< NewtonSolverInterface<VD> >& s, Gets& g ) {
    g.push_back( { "max_iterations", std::to_string( s->iterationCountLimit() ) } ); } };
template<> struct Typed< OdeStepMapping<VD> > { static void get( const std::shared_ptr< OdeStepMapping<VD> >& s, Gets& g ) {
    if( auto e = std::dynamic_pointer_cast< OdeStepMappingEuler<VD> >( s ) ) { g.push_back( { "h", text( e->timeStep() ) } ); g.push_back( { "alpha", text( e->implicitnessParameter() ) } ); } } };
template<> struct Typed< OdeInitState<VD> > { static void get( const std::shared_ptr< OdeInitState<VD> >& s, Gets& g ) {
    g.push_back( { "time", text( s->initialTime() ) } );
    auto x = s->initialState();
    g.push_back( { "size", std::to_string( x.size() ) } );
    for( unsigned i=0; i<x.size(); ++i ) g.push_back( { "x" + std::to_string( i ), text( x[i] ) } ); } };
// a component of any interface
struct Comp {
    virtual ~Comp() {}
    virtual const OP *op() const = 0;
    virtual OP *op() = 0;
    virtual Gets gets() const = 0;
    virtual void copy() = 0;
    virtual Strs names() { Strs r; for( auto& i : op()->parameters() ) r.push_back( i.first ); return r; }
};
struct FaceBase {
    std::string name;
    virtual ~FaceBase() {}
    virtual Strs types() = 0;
    virtual std::unique_ptr<Comp> make( const std::string& type ) = 0;
    virtual void nothing() = 0;
};
template< class I > struct CompOf : Comp {
    std::shared_ptr<I> c;
    const OP *op() const { return dynamic_cast<const OP*>( c.get() ); }
    OP *op() { return dynamic_cast<OP*>( c.get() ); }
    Gets gets() const { Gets g; Typed<I>::get( c, g ); return g; }
    void copy() {
        OP::Value v = c;
        auto n = v.safeNestedParameters();
        std::shared_ptr<I> d = v;
        CompOf<I> x;
        x.c = d;
        Ev( "copy" ).s( "text", v.value<std::string>() ).s( "type", TypeIdGetter<I>::typeId( d ) ).b( "fresh", d != c ).raw( "nested", jflat( flat( n ) ) )
            .raw( "tree", jflat( x.op()? flat( x.op()->parameters() ): Flat() ) ).raw( "old", jflat( op()? flat( op()->parameters() ): Flat() ) );
    }
};
template< class I > struct FaceOf : FaceBase {
    explicit FaceOf( const char *n ) { name = n; }
    Strs types() { return Factory<I>::registeredTypes(); }
    std::unique_ptr<Comp> make( const std::string& type ) { std::unique_ptr< CompOf<I> > r( new CompOf<I> ); r->c = Factory<I>::newInstance( type ); return std::move( r ); }
    void nothing() {
        OP::Value v = std::shared_ptr<I>();
        std::shared_ptr<I> d = v, e = OP::Value( "" );
        Ev( "nothing" ).s( "text", v.value<std::string>() ).b( "none", !d && !e && !v.nestedParameters() );
    }
};
static std::vector< std::unique_ptr<FaceBase> > faces;
static std::map<std::string, std::string> faceOf = { { "eventctl", "OdeEventController" }, { "stepsizectl", "OdeStepSizeController" }, { "enorm", "ErrorNormCalculator" }, { "jtrim", "JacobianTrimmer" },
    { "reference_solver", "OdeSolver" }, { "predictor", "OdeSolver" }, { "step_sequence", "ExtrapolatorStepSequence" }, { "algsolver", "NewtonSolverInterface" }, { "ddir", "NewtonDescentDirection" },
    { "err", "ErrorEstimator" }, { "itperf", "NewtonIterationPerformer" }, { "jacobian", "JacobianProvider" }, { "linsearch", "NewtonLinearSearch" } };
static FaceBase& faceBy( const std::string& n ) { for( auto& f : faces ) if( f->name == n ) return *f; throw std::runtime_error( n ); }
static std::vector<Given> some( Rng& r, const Strs& names, bool good, OP::Parameters& p, int depth );
// a value for a parameter; good: one that is usually right
static Given one( Rng& r, const std::string& n, bool good, OP::Value& v, int depth ) {
    Given g{ n, "", false, {} };
    auto plain = [&]( const std::string& t ) { g.text = t; v = OP::Value( t ); };
    auto f = faceOf.find( n );
    if( !good && r.chance( 25 ) ) plain( r.pick( r.chance( 50 )? odd: types ) );
    else if( n == "regularizer" || n == "reorder" ) plain( "" );
    else if( f != faceOf.end() ) {
        auto& face = faceBy( f->second );
        auto t = face.types();
        if( n != "algsolver" || r.chance( 30 ) ) t.push_back( "" );
        g.text = r.pick( t );
        v = OP::Value( g.text );
        if( !g.text.empty() && depth > 0 && r.chance( 50 ) ) {
            OP::Parameters nested;
            auto c = face.make( g.text );
            g.nested = some( r, c->op()? c->names(): Strs(), good, nested, depth-1 );
            v = OP::Value( g.text, nested );
        }
    }
    else if( n == "h" ) { double x = std::fabs( number( r ) ); g.text = text( x ); g.number = true; v = OP::Value( x ); }      // a step is positive
    else if( n == "mode" || n == "friction" ) plain( n == "mode"? r.pick( Strs{ "low", "high" } ): r.pick( Strs{ "atan", "tabular", "linear" } ) );
    else if( n == "size" ) { int k = r.below( 4 ); g.text = std::to_string( k ); v = OP::Value( k ); }
    else if( n == "file_name" || n == "simout_basename" ) plain( r.pick( texts ) );
    else if( !good && r.chance( 40 ) ) plain( r.pick( texts ) );
    else switch( r.below( 4 ) ) {
    case 0: if( good && ( n == "n" || n == "width" || n == "lazy_iterations" || n.substr( 0, 4 ) == "max_" || n == "size_half_lim" || n == "predictor_steps" || n == "symmetric" || n == "smooth" || n.find( "error" ) != std::string::npos ) ) { plain( "1" ); break; }
        { double x = number( r ); g.text = text( x ); g.number = true; v = OP::Value( x ); } break;
    case 1: { bool b = r.chance( 50 ); g.text = b? "1": "0"; v = OP::Value( int( b ) ); break; }
    case 2: g.text = r.chance( 50 )? "0": "1"; v = OP::Value( g.text.c_str() ); break;
    default: { unsigned k = r.below( 2 ); g.text = std::to_string( k ); v = OP::Value( k ); }
    }
    return g;
}
static std::vector<Given> some( Rng& r, const Strs& names, bool good, OP::Parameters& p, int depth ) {
    std::map<std::string, Given> m;
    int k = names.empty()? 0: r.range( 0, std::min( 5, int( names.size() ) ) );
    for( int i=0; i<k; ++i ) { auto& n = r.pick( names ); OP::Value v; m[n] = one( r, n, good, v, depth ); p[n] = v; }
    if( r.chance( 25 ) ) { static const Strs other = { "nothing", "x0", "x1", "x2", "n", "tolerance", "h_init", "D", "" }; auto& n = r.pick( other ); if( !m.count( n ) ) { OP::Value v; m[n] = one( r, n, good, v, 0 ); p[n] = v; } }
    std::vector<Given> g;
    for( auto& i : m ) g.push_back( i.second );
    return g;
}
static void component( Rng& r ) {
    auto& f = *faces[r.below( faces.size() )];
    if( r.chance( 10 ) ) f.nothing();
    auto t = f.types();
    auto type = r.pick( t );
    bool good = r.chance( 70 );
    std::unique_ptr<Comp> c;
    int ops = r.range( 1, 6 );
    for( int i=0; i<ops; ++i ) {
        if( !c ) {
            c = f.make( type );
            Ev( "made" ).s( "face", f.name ).s( "type", type ).raw( "tree", jflat( c->op()? flat( c->op()->parameters() ): Flat() ) ).raw( "gets", jgets( c->gets() ) );
        }
        if( !c->op() ) { c->copy(); continue; }
        if( r.chance( 20 ) ) { c->copy(); continue; }
        OP::Parameters p;
        auto g = some( r, c->names(), good, p, 2 );
        if( r.chance( 10 ) ) {      // its own parameters
            p = c->op()->parameters();
            g.clear();
            std::function< std::vector<Given>( const OP::Parameters& ) > own = [&]( const OP::Parameters& p ) {
                std::vector<Given> g;
                for( auto& i : p ) { auto t = i.second.value<std::string>(); g.push_back( { i.first, t, t == text( std::strtod( t.c_str(), nullptr ) ), own( i.second.safeNestedParameters() ) } ); }
                return g;
            };
            g = own( p );
        }
        bool thrown = false;
        try { c->op()->setParameters( p ); } catch( std::exception& ) { thrown = true; }
        Ev( "set" ).raw( "given", jgiven( g ) ).b( "thrown", thrown ).raw( "tree", jflat( flat( c->op()->parameters() ) ) ).raw( "gets", jgets( c->gets() ) );
        if( thrown ) c.reset();
    }
}
template< class T > static std::string as( const OP::Value& v, std::string (*show)( T ) ) { try { return show( v.value<T>() ); } catch( std::exception& ) { return "!"; } }
static void value( const OP::Value& v, const std::string& t, bool number, bool isInt, bool isUint ) {
    std::string a[] = { as<double>( v, text ), as<int>( v, []( int x ) { return std::to_string( x ); } ), as<unsigned>( v, []( unsigned x ) { return std::to_string( x ); } ),
        as<bool>( v, []( bool x ) { return std::string( x? "true": "false" ); } ) };
    Ev( "value" ).s( "text", t ).s( "string", v.value<std::string>() ).b( "number", number ).raw( "as", jstrs( Strs( a, a+4 ) ) )
        .raw( "whole", std::string( "{\"double\":false,\"bool\":false,\"int\":" ) + ( isInt? "true": "false" ) + ",\"uint\":" + ( isUint? "true": "false" ) + "}" );
}
static void values( Rng& r ) {
    for( int k=0; k<8; ++k ) switch( r.below( 8 ) ) {
    case 0: { auto& t = r.pick( texts ); value( t, t, false, false, false ); break; }
    case 1: { auto& t = r.pick( odd ); value( t.c_str(), t, false, false, false ); break; }
    case 2: { double x = number( r ); value( x, text( x ), true, false, false ); break; }
    case 3: { double x = number( r ); value( text( x ), text( x ), true, false, false ); break; }
    case 4: { int x = int( unsigned( r.next() ) ); int y = OP::Value( x ); Ev( "typed" ).s( "put", std::to_string( x ) ).s( "got", std::to_string( y ) ); value( x, std::to_string( x ), std::to_string( x ) == text( x ), true, x >= 0 ); break; }
    case 5: { unsigned x = r.next(); unsigned y = OP::Value( x ); Ev( "typed" ).s( "put", std::to_string( x ) ).s( "got", std::to_string( y ) ); value( x, std::to_string( x ), true, x <= 0x7fffffffu, true ); break; }
    case 6: { bool x = r.chance( 50 ); bool y = OP::Value( x ); Ev( "typed" ).s( "put", x? "true": "false" ).s( "got", y? "true": "false" ); value( x, x? "true": "false", false, false, false ); break; }
    default: { double x = r.chance( 50 )? number( r ): r.range( -1000000, 1000000 ); double y = OP::Value( x ); Ev( "typed" ).s( "put", text( x ) ).s( "got", text( y ) ); }
    }
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        OdeNumIntClassesRegistrator<VD> reg;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> models;
        faces.emplace_back( new FaceOf< OdeSolver<VD> >( "OdeSolver" ) );
        faces.emplace_back( new FaceOf< OdeRhs<VD> >( "OdeRhs" ) );
        faces.emplace_back( new FaceOf< NewtonSolverInterface<VD> >( "NewtonSolverInterface" ) );
        faces.emplace_back( new FaceOf< OdeStepSizeController<VD> >( "OdeStepSizeController" ) );
        faces.emplace_back( new FaceOf< OdeStepMapping<VD> >( "OdeStepMapping" ) );
        faces.emplace_back( new FaceOf< OdeInitState<VD> >( "OdeInitState" ) );
        faces.emplace_back( new FaceOf< OdeSolverOutputOption<VD> >( "OdeSolverOutputOption" ) );
        faces.emplace_back( new FaceOf< JacobianTrimmer<VD> >( "JacobianTrimmer" ) );
        faces.emplace_back( new FaceOf< ErrorEstimator<VD> >( "ErrorEstimator" ) );
        faces.emplace_back( new FaceOf< NewtonDescentDirection<VD> >( "NewtonDescentDirection" ) );
        faces.emplace_back( new FaceOf< JacobianProvider<VD> >( "JacobianProvider" ) );
        faces.emplace_back( new FaceOf< NewtonLinearSearch<VD> >( "NewtonLinearSearch" ) );
        faces.emplace_back( new FaceOf< NewtonIterationPerformer<VD> >( "NewtonIterationPerformer" ) );
        faces.emplace_back( new FaceOf< ErrorNormCalculator<VD> >( "ErrorNormCalculator" ) );
        faces.emplace_back( new FaceOf< OdeEventController<VD> >( "OdeEventController" ) );
        faces.emplace_back( new FaceOf< ExtrapolatorStepSequence >( "ExtrapolatorStepSequence" ) );
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*9413 + i );
            scenario( "pars-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            if( r.chance( 25 ) ) values( r ); else component( r );
            Ev( "end" );
        }
    } );
}
