// run.cpp: configured runs and what their outputs record.
// arguments: gen file part parts | seed number
// flags: -O2 -fno-sanitize=all
#include "json.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include <unistd.h>
using namespace ctm; using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters OP;
typedef std::vector<std::string> Strs;
// What a scripted solver does in one attempt
struct Attempt { double h, err; bool accepted, changed, truncated; unsigned zf; int tt; int rhs, refreshes, jrhs; };
static std::vector<Attempt> script;
static size_t scriptAt = 0;
class Scripted : public OdeSolver<VD>, public FactoryMixin< Scripted, OdeSolver<VD> > {
    double m_t = 0; V m_x;
public:
    int order() const { return 3; }
    double initialTime() const { return m_t; }
    V initialState() const { return m_x; }
    void setInitialState( double t, const V& x, bool ) { m_t = t; m_x = x; }
    void doStep() {
        Attempt a = script.at( scriptAt++ );
        odeSolverPreObservers( a.h, this );
        auto r = odeRhs();
        for( int i=0; i<a.rhs; ++i ) r->rhs( m_t, m_x );
        for( int k=0; k<a.refreshes; ++k ) { jacobianRefreshObservers( true ); for( int i=0; i<a.jrhs; ++i ) r->rhs( m_t, m_x ); jacobianRefreshObservers( false ); }
        if( a.accepted ) { m_t += a.h; for( unsigned i=0; i<m_x.size(); ++i ) m_x[i] = m_x[i]*0.5 + ( i+1 )*a.h; }
        odeSolverPostObservers( OdeSolverPostObserverArg<VD>( a.h, a.accepted, a.changed, a.truncated, a.err, a.zf, a.tt, this ) );
    }
};
class Plain : public OdeRhs<VD>, public FactoryMixin< Plain, OdeRhs<VD> > {
    unsigned m_n2 = 0, m_n1 = 1;
public:
    unsigned int secondOrderVarCount() const { return m_n2; }
    unsigned int firstOrderVarCount() const { return m_n1; }
    void rhs( V& dst, double t, const V& x ) const {
        odeRhsPreObservers( t, x, this );
        dst.resize( varCount() );
        for( unsigned i=0; i<varCount(); ++i ) dst[i] = i < m_n2? x[i+m_n2]: -x[i]*0.5 + 0.25*( i%3 );
        odeRhsPostObservers( t, x, dst, this );
    }
    std::string describeZeroFunction( unsigned i ) const { return "zero function number " + std::to_string( i ); }
    Parameters parameters() const { Parameters r; r["n2"] = m_n2; r["n1"] = m_n1; return r; }
    void setParameters( const Parameters& p ) { maybeLoadParameter( p, "n2", m_n2 ); maybeLoadParameter( p, "n1", m_n1 ); }
};
static std::vector<std::string> told;
class Recorder : public OdeSolverOutputOption<VD>, public FactoryMixin< Recorder, OdeSolverOutputOption<VD> > {
    std::string m_role;
public:
    void beforeFirstStep( const OdeSolverConfiguration<VD> *c, const OdeSolverComponents<VD> *k ) { Ev( "told" ).s( "role", m_role ).s( "what", "begin" ).d( "t", k->solver()->initialTime() ).b( "same", c->parameterProvider()->solver() == k->solver() ); }
    void afterSolve() { Ev( "told" ).s( "role", m_role ).s( "what", "over" ).d( "t", 0 ).b( "same", true ); }
    Parameters parameters() const { Parameters r; r["role"] = m_role; return r; }
    void setParameters( const Parameters& p ) { maybeLoadParameter( p, "role", m_role ); }
};
static std::string q( const std::string& s ) { return jstr( s ); }
// a field of an output: a number or a word
static std::string field( const std::string& s ) {
    char *e = nullptr;
    if( !s.empty() && !isspace( (unsigned char)s[0] ) ) { double x = strtod( s.c_str(), &e ); if( e == s.c_str()+s.size() ) return q( dstr( x ) ); }
    return q( s );
}
static Strs split( const std::string& s, char c ) { Strs r; std::string t; for( char k : s ) if( k == c ) { r.push_back( t ); t.clear(); } else t += k; r.push_back( t ); return r; }
static bool eat( std::string& s, const std::string& p ) { if( s.compare( 0, p.size(), p ) ) return false; s = s.substr( p.size() ); return true; }
static std::string until( std::string& s, const std::string& p ) { auto k = s.find( p ); std::string r = s.substr( 0, k ); s = k == std::string::npos? "": s.substr( k ); return r; }
static std::string line( const std::string& type, const std::string& l ) {
    std::string s = l, r;
    if( type == "con_solution" || type == "con_solution_columnwise" ) {
        for( auto& f : split( l, '\t' ) ) r += ( r.empty()? "": "," ) + field( f );
        return "{\"k\":\"row\",\"f\":[" + r + "]}";
    }
    if( type == "con_general" ) {
        if( eat( s, "step " ) ) {
            auto n = until( s, "," ); eat( s, ", time = " );
            auto t = until( s, "," ); eat( s, ", h = " );
            auto h = until( s, "," ); eat( s, ", err = " );
            auto e = until( s, "," );
            bool acc = eat( s, ", accepted" ), rej = !acc && eat( s, ", rejected" );
            bool ch = eat( s, ", step size changed" ), tr = eat( s, ", step truncated" );
            std::string due;
            if( eat( s, " due to " ) ) { due = s; s = ""; }
            if( s.empty() && ( acc || rej ) )
                return "{\"k\":\"step\",\"n\":" + field( n ) + ",\"t\":" + field( t ) + ",\"h\":" + field( h ) + ",\"err\":" + field( e ) + ",\"accepted\":" + ( acc? "true": "false" )
                    + ",\"changed\":" + ( ch? "true": "false" ) + ",\"truncated\":" + ( tr? "true": "false" ) + ",\"due\":" + q( due ) + "}";
        }
        else if( eat( s, "  Newton it. " ) ) {
            auto n = until( s, "," ); eat( s, ", alpha=" );
            auto a = until( s, "," ); 
            if( eat( s, ", " ) ) return "{\"k\":\"it\",\"n\":" + field( n ) + ",\"alpha\":" + field( a ) + ",\"status\":" + q( s ) + "}";
        }
    }
    if( type == "stats_full" ) {
        auto key = until( s, ": " );
        if( eat( s, ": " ) ) {
            if( key == "TIMING" ) { key += ": " + until( s, ": " ); auto k = s.find( "count = " ); s = k == std::string::npos? "": s.substr( k+8 ); }
            if( key == "Total time" || key.substr( 0, 5 ) == "Speed" ) s = "";
            for( char& c : s ) if( strchr( "()%=+", c ) ) c = ' ';
            std::istringstream is( s );
            std::string w;
            while( is >> w ) r += ( r.empty()? "": "," ) + field( w );
            return "{\"k\":\"stat\",\"key\":" + q( key ) + ",\"v\":[" + r + "]}";
        }
    }
    return "{\"k\":\"?\",\"text\":" + q( l ) + "}";
}
static std::string lines( const std::string& type, const std::string& text ) {
    std::string r;
    std::istringstream is( text );
    for( std::string l; std::getline( is, l ); ) r += ( r.empty()? "": "," ) + line( type, l );
    if( !text.empty() && text.back() != '\n' ) r += ",{\"k\":\"?\",\"text\":\"no end of line\"}";
    return "[" + r + "]";
}
static std::string scratch;
struct Out { std::string role, type; bool file; unsigned half, max; std::string path; };
struct Case {
    std::string solver, rhs;        // "" for none
    OP::Parameters solverPar, rhsPar;
    std::string key;                // names a configuration that is used again
    bool nest = true;
    bool init = false; double initTime = 0; std::vector<double> initState;
    double passedTime = 0; std::vector<double> passedState;
    double duration = 1, timing = 0;
    bool exact = false, ref = false;
    std::vector<Out> outs;
    int runs = 1;
    bool again = false;
    std::string newDdir;            // a descent direction its Newton solver is given before the first run
    bool newNewton = false;         // it is given a new Newton solver
};
static const char *roleName( const std::string& r ) { return r == "stats"? "output_stats": r == "con"? "output_con": "output_file"; }
static V vec( const std::vector<double>& x ) { V v( x.size() ); for( size_t i=0; i<x.size(); ++i ) v[i] = x[i]; return v; }
static void run( const std::string& id, Case c, Rng *r = nullptr ) {
    if( r ) c.nest = r->chance( 50 );
    scenario( id );
    scriptAt = 0;
    // a configuration may have been used before
    static std::map< std::string, std::unique_ptr< OdeSolverConfiguration<VD> > > used;
    std::unique_ptr< OdeSolverConfiguration<VD> > own;
    auto& held = c.key.empty()? own: used[c.key];
    bool fresh = !held;
    if( fresh ) held.reset( new OdeSolverConfiguration<VD> );
    auto& cfg = *held;
    auto set = [&]( const std::string& n, const OP::Value& v ) { if( fresh ) cfg.setValue( n, v ); };
    // parameters by path or with the component
    bool nest = c.nest;
    auto setAll = [&]( const std::string& n, const std::string& type, const OP::Parameters& p ) {
        if( nest && !type.empty() ) set( n, OP::Value( type, p ) );
        else { set( n, type ); for( auto& i : p ) set( n + "." + i.first, i.second ); }
    };
    setAll( "rhs", c.rhs, c.rhsPar );
    setAll( "solver", c.solver, c.solverPar );
    if( c.ref ) set( "reference_solver", std::string( "rk4" ) );
    set( "time", c.duration );
    set( "output_timing", c.timing );
    if( c.init ) {
        OP::Parameters p;
        p["time"] = c.initTime;
        p["size"] = unsigned( c.initState.size() );
        for( size_t i=0; i<c.initState.size(); ++i ) p["x" + std::to_string( i )] = c.initState[i];
        setAll( "init_state", "specified", p );
    }
    std::string jo;
    for( auto& o : c.outs ) {
        OP::Parameters p;
        if( o.type == "recorder" ) p["role"] = o.role;
        else {
            if( o.file ) { o.path = scratch + "/" + o.role; p["file_name"] = o.path; }
            if( o.type == "con_solution" ) p["size_half_lim"] = o.half;
            if( o.type == "con_solution_columnwise" ) p["max_steps"] = o.max;
        }
        setAll( roleName( o.role ), o.type, p );
        jo += ( jo.empty()? "": "," ) + std::string( "{\"role\":" ) + q( o.role ) + ",\"type\":" + q( o.type ) + ",\"file\":" + ( o.file? "true": "false" ) + ",\"half\":" + std::to_string( o.half ) + ",\"max\":" + std::to_string( o.max ) + "}";
    }
    auto pp = cfg.parameterProvider();
    auto rhs = pp->odeRhs();
    auto solver = pp->solver();
    Ev( "config" ).b( "solver", bool( solver ) ).b( "rhs", bool( rhs ) ).s( "init", c.init? "given": "none" ).i( "initsize", c.initState.size() ).d( "inittime", c.initTime ).v( "initstate", c.initState )
        .i( "vars", rhs? rhs->varCount(): 0 ).i( "n2", rhs? rhs->secondOrderVarCount(): 0 ).d( "duration", pp->odeSolverDuration() ).d( "timing", pp->odeSolverOutputTiming() ).b( "exact", c.exact ).raw( "outs", "[" + jo + "]" );
    for( int r=0; r<=int( c.again ); ++r ) {
        std::unique_ptr< OdeSolverComponents<VD> > comp;
        bool thrown = false;
        try { comp.reset( new OdeSolverComponents<VD>( cfg.apply( std::set<unsigned>(), c.passedTime, vec( c.passedState ) ) ) ); } catch( std::exception& ) { thrown = true; }
        {
            Ev e( "apply" );
            e.d( "passedtime", c.passedTime ).v( "passedstate", c.passedState ).b( "thrown", thrown );
            if( !thrown ) {
                auto s = comp->solver();
                auto ec = dynamic_cast< OdeEventControllerHolder<VD>* >( s.get() );
                auto rs = comp->refSolver();
                bool wired = s == solver && comp->odeRhs() == rhs && s->odeRhs() == rhs && rs == pp->refSolver() && bool( rs ) == c.ref && ( !ec || !ec->eventController() || ec->eventController()->odeRhs() == rhs );
                e.d( "t", s->initialTime() ).v( "x", s->initialState() ).b( "wired", wired ).b( "ref", !rs || ( rs->odeRhs() == rhs && rs->initialTime() == s->initialTime() && rs->initialState().size() == s->initialState().size() ) );
                if( rs ) e.v( "refx", rs->initialState() ); else e.v( "refx", s->initialState() );
            }
        }
        if( thrown ) break;
        std::shared_ptr< OdeSolver<VD> > direct;
        std::shared_ptr< OdeRhs<VD> > rhs2;
        int rhsCount2 = 0;
        for( int k=0; k<c.runs; ++k ) {
            // events of the run follow the texts
            FILE *trace = traceFile();
            char *buf = nullptr; size_t len = 0;
            traceFile() = open_memstream( &buf, &len );
            std::ostringstream os;
            auto old = std::cout.rdbuf( os.rdbuf() );
            auto count = [&]() { int n = 0; for( char ch : os.str() ) n += ch == '\n'; return n; };
            int rhsCount = 0, jrhs = 0, jrefs = 0, made = 0;
            bool jac = false;
            std::string its;
            std::vector<double> x0; double t0 = 0;
            bool refused = false, tooLong = false; std::string why;
            {
                typedef OdeSolver<VD> S;
                auto s = comp->solver();
                t0 = s->initialTime();
                auto nh = dynamic_cast< NewtonSolverHolder<VD>* >( s.get() );
                if( nh && k == 0 && c.newNewton ) {
                    auto p = nh->newtonSolver()->parameters();
                    nh->setNewtonSolver( Factory< NewtonSolverInterface<VD> >::newInstance( "newton" ) );
                    nh->newtonSolver()->setParameters( p );
                }
                auto newton = nh? nh->newtonSolver(): nullptr;
                if( newton && k == 0 && !c.newDdir.empty() ) {
                    auto dd = Factory< NewtonDescentDirection<VD> >::newInstance( c.newDdir );
                    dd->setJacobianProvider( Factory< JacobianProvider<VD> >::newInstance( "default" ) );
                    newton->setComponent( dd );
                }
                if( rhs && c.solver != "scripted" && !direct && r == 0 ) {     // a Rosenbrock solver keeps its step size when it starts again
                    direct = Factory<S>::newInstance( c.solver );
                    direct->setParameters( s->parameters() );
                    rhs2 = Factory< OdeRhs<VD> >::newInstance( c.rhs );
                    rhs2->setParameters( rhs->parameters() );
                    direct->setOdeRhs( rhs2 );
                    direct->setInitialState( s->initialTime(), s->initialState() );
                }
                auto o1 = cxx::makeScopedIdentifiedElement( s->odeSolverPreObservers, [&]( double h, const S* p ) { Ev( "pre" ).d( "h", h ).d( "t", p->initialTime() ).i( "out", count() ); } );
                auto o2 = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, [&]( const OdeSolverPostObserverArg<VD>& a ) {
                    std::string due;
                    if( a.izfTrunc() != ~0u ) due = rhs->describeZeroFunction( a.izfTrunc() ) + " " + ( a.transitionType() > 0? "+": a.transitionType() < 0? "-": "?" );
                    Ev( "att" ).d( "h", a.stepSize() ).d( "err", a.errorNorm() ).b( "accepted", a.stepAccepted() ).b( "changed", a.stepSizeChanged() ).b( "truncated", a.stepTruncated() ).s( "due", due )
                        .d( "t", a.solver()->initialTime() ).v( "x", a.solver()->initialState() ).raw( "its", "[" + its + "]" );
                    its.clear();
                    if( ++made > 3000 ) { tooLong = true; throw std::runtime_error( "too long" ); }
                } );
                // of a solver with a Newton solver, what the latter does is observed there
                auto o3 = cxx::makeScopedIdentifiedElement( newton? newton->iterationPerformer()->newtonDescentDirection()->jacobianRefreshObservers: s->jacobianRefreshObservers, [&]( bool start ) { jac = start; jrefs += start; } );
                auto o4 = cxx::makeScopedIdentifiedElement( newton? newton->iterationObservers: s->iterationObservers, [&]( unsigned n, const NewtonSolverInterface<VD>* ns ) {
                    its += ( its.empty()? "": "," ) + std::string( "{\"n\":" ) + std::to_string( n ) + ",\"alpha\":" + jd( ns->iterationPerformer()->currentStepRatio() ) + ",\"status\":" + q( ns->iterationPerformer()->errorEstimator()->currentStatusMessage() ) + "}";
                    return false; } );
                std::unique_ptr< cxx::ScopedIdentifiedElement< OdeRhsPostObservers<VD>::cb_type > > o5;
                if( rhs ) o5.reset( new cxx::ScopedIdentifiedElement< OdeRhsPostObservers<VD>::cb_type >( rhs->odeRhsPostObservers, [&]( double, const V&, const V&, const OdeRhs<VD>* ) { ++rhsCount; jrhs += jac; } ) );
                try { solveOde( &cfg, comp.get() ); } catch( std::exception& e ) { refused = true; why = e.what(); if( why.compare( 0, 23, "Algebraic solver failed" ) == 0 ) tooLong = true; }
            }
            std::cout.rdbuf( old );
            fclose( traceFile() );
            traceFile() = trace;
            std::string texts;
            for( auto& o : c.outs ) {
                std::string t;
                if( o.type == "recorder" ) continue;
                if( o.file ) { std::ifstream f( o.path ); std::ostringstream b; b << f.rdbuf(); t = b.str(); unlink( o.path.c_str() ); } else t = os.str();
                texts += ( texts.empty()? "": "," ) + std::string( "{\"role\":" ) + q( o.role ) + ",\"lines\":" + lines( o.type, t ) + "}";
            }
            if( tooLong ) { free( buf ); goto over; }
            Ev( "solve" ).raw( "texts", "[" + texts + "]" ).b( "refused", refused ).s( "why", why );
            fwrite( buf, 1, len, trace );
            free( buf );
            if( !refused ) {
                bool same = true;
                if( direct ) {
                    int n2 = 0;
                    auto o = cxx::makeScopedIdentifiedElement( rhs2->odeRhsPostObservers, [&]( double, const V&, const V&, const OdeRhs<VD>* ) { ++n2; } );
                    double end = t0 + c.duration;
                    do direct->doStep(); while( direct->initialTime() < end );
                    auto a = direct->initialState(), b = solver->initialState();
                    same = n2 == rhsCount && direct->initialTime() == solver->initialTime() && a.size() == b.size();
                    for( unsigned i=0; same && i<a.size(); ++i ) same = a[i] == b[i] || ( a[i] != a[i] && b[i] != b[i] );
                    (void) rhsCount2;
                }
                Ev( "done" ).d( "t", solver->initialTime() ).v( "x", solver->initialState() ).i( "rhs", rhsCount ).i( "jrhs", jrhs ).i( "jrefs", jrefs ).i( "out", count() ).b( "same", same ).d( "t0", t0 );
            }
            if( refused ) break;
        }
    }
over:
    Ev( "end" );
}
static std::vector<Out> outputs( Rng& r, bool stdoutUsed = false ) {
    static const Strs types = { "stats_full", "con_general", "con_solution", "con_solution_columnwise", "recorder" };
    std::vector<Out> o;
    for( std::string role : { "stats", "con", "file" } ) {
        if( r.chance( 15 ) ) continue;
        Out x{ role, r.chance( 50 )? role == "stats"? "stats_full": role == "con"? "con_general": "con_solution": r.pick( types ), true, unsigned( r.below( 4 ) ), unsigned( r.chance( 70 )? r.range( 1, 12 ): r.below( 3 ) ), "" };
        if( x.type == "recorder" ) x.file = false;
        else if( !stdoutUsed && r.chance( 40 ) ) { x.file = false; stdoutUsed = true; }
        o.push_back( x );
    }
    return o;
}
static Attempt attempt( Rng& r, double h, bool acc, bool ch, bool tr ) {
    Attempt a{ h, r.chance( 50 )? 0: r.uniform( 0, 2 ), acc, ch, tr, ~0u, 0, r.below( 4 ), r.chance( 30 )? r.range( 1, 2 ): 0, r.below( 3 ) };
    if( tr && r.chance( 70 ) ) { a.zf = r.below( 3 ); a.tt = r.range( -1, 1 ); }
    return a;
}
static void scripted( Rng& r, const std::string& id ) {
    Case c;
    c.solver = "scripted";
    c.rhs = "plain";
    unsigned n2 = r.below( 4 ), n1 = r.below( 9 );
    if( r.chance( 15 ) ) n1 += 8;
    c.rhsPar["n2"] = n2; c.rhsPar["n1"] = n1;
    c.exact = r.chance( 50 );
    unsigned n = 2*n2 + n1;
    auto state = [&]() { std::vector<double> x; for( unsigned i=0; i<n; ++i ) x.push_back( r.chance( 20 )? r.range( -3, 3 ): r.dyadic( 4, 1024 ) ); return x; };
    c.passedState = state(); c.passedTime = r.chance( 30 )? 0: r.dyadic( 8, 16 );
    c.init = r.chance( 30 ) && n <= 6;
    if( c.init ) { c.initState = state(); c.initTime = r.dyadic( 8, 16 ); if( r.chance( 15 ) ) c.initState.resize( r.below( 6 ) ); }
    c.duration = c.exact? r.range( 0, 40 )/8.: r.uniform( 0, 5 );
    if( r.chance( 5 ) ) c.duration = -1;
    c.timing = r.chance( 30 )? 0: c.exact? std::ldexp( 1., r.range( -4, 1 ) ): r.uniform( 0.01, 1.5 );
    if( r.chance( 4 ) ) c.timing = -c.timing;
    c.ref = r.chance( 20 );
    if( r.chance( 5 ) ) c.solver = "";
    if( r.chance( 5 ) ) { c.rhs = ""; c.rhsPar.clear(); }
    c.runs = r.chance( 20 )? 2: 1;
    c.again = r.chance( 15 );
    c.outs = outputs( r );
    c.nest = r.chance( 50 );
    c.key = id;
    int reps = r.range( 1, 6 );
    for( int k=0; k<reps; ++k ) {       // the same configuration, again
        c.passedState = state(); c.passedTime = r.chance( 30 )? 0: r.dyadic( 8, 16 );
        c.runs = r.chance( 20 )? 2: 1;
        c.again = r.chance( 15 );
        script.clear();
        double total = 0, need = std::max( 0., c.duration )*( c.runs+1 )*( 1+c.again ) + 8;
        int rej = r.chance( 60 )? 20: 0;
        while( total < need ) {
            double h = c.exact? r.range( 1, 8 )/16.: r.uniform( 0.01, 0.6 );
            bool acc = !r.chance( rej );
            script.push_back( attempt( r, h, acc, r.chance( acc? 10: 70 ), r.chance( 12 ) ) );
            if( acc ) total += h;
        }
        run( id + "-" + std::to_string( k ), c );
    }
}
static void real( Rng& r, const std::string& id ) {
    static const Strs solvers = { "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "extrapolator", "gragg", "i_euler", "rosenbrock_w1", "rosenbrock_sw2_4" };
    static const Strs models = { "oscillator", "stiff_1d", "bouncing_ball", "coupled_nl_osc", "sliding_point", "plain" };
    Case c;
    c.solver = r.pick( solvers );
    c.rhs = r.pick( models );
    if( c.rhs == "coupled_nl_osc" ) { c.rhsPar["n"] = r.range( 1, 4 ); c.rhsPar["c0"] = r.range( 1, 20 ); c.rhsPar["c2"] = r.range( 0, 10 ); c.rhsPar["f"] = r.range( 0, 3 ); }
    if( c.rhs == "bouncing_ball" ) { c.rhsPar["recovery_factor"] = r.range( 3, 9 )/10.; c.rhsPar["stick_speed"] = r.pick( std::vector<double>{ 1e-5, 0.1, 1 } ); }
    if( c.rhs == "sliding_point" ) { c.rhsPar["friction"] = r.pick( Strs{ "atan", "tabular", "linear" } ); c.rhsPar["omega"] = r.range( 1, 10 ); }
    if( c.rhs == "plain" ) { c.rhsPar["n2"] = r.below( 3 ); c.rhsPar["n1"] = r.range( 1, 4 ); }
    auto probe = Factory< OdeRhs<VD> >::newInstance( c.rhs );
    probe->setParameters( c.rhsPar );
    unsigned n = probe->varCount();
    auto state = [&]() { std::vector<double> x; for( unsigned i=0; i<n; ++i ) x.push_back( r.dyadic( 1, 64 ) + ( c.rhs == "bouncing_ball" && !i? 1.25: 0 ) ); return x; };
    c.passedState = state(); c.passedTime = r.chance( 30 )? 0: r.dyadic( 8, 16 );
    c.init = r.chance( 30 );
    if( c.init ) { c.initState = state(); c.initTime = r.dyadic( 8, 16 ); }
    c.duration = r.chance( 10 )? 0: r.uniform( 0, 1 );
    c.timing = r.chance( 30 )? 0: r.chance( 30 )? r.range( 1, 10 )/20.: r.uniform( 0.01, 0.6 );
    c.solverPar["h_init"] = r.pick( std::vector<double>{ 0.01, 0.05, 0.1, 0.0625 } );
    if( c.solver == "i_euler" ) {
        if( r.chance( 60 ) ) {
            OP::Parameters n;
            n["ddir"] = r.pick( Strs{ "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart" } );
            if( r.chance( 30 ) ) n["jacobian"] = r.pick( Strs{ "default", "sparse" } );
            c.solverPar["algsolver"] = OP::Value( "newton", n );
        }
        c.newNewton = r.chance( 30 );
        if( r.chance( 30 ) ) c.newDdir = r.pick( Strs{ "simple", "const", "broyden" } );
        if( r.chance( 30 ) ) c.solverPar["alpha"] = r.pick( std::vector<double>{ 0.5, 1 } );
        if( r.chance( 30 ) ) c.solverPar["predictor"] = r.pick( Strs{ "rk4", "euler" } );
    }
    if( c.solver == "extrapolator" ) { c.solverPar["reference_solver"] = r.pick( Strs{ "gragg", "rk4", "euler" } ); c.solverPar["step_sequence"] = r.pick( Strs{ "bulirsch", "harmonic", "romberg" } ); }
    c.ref = r.chance( 20 );
    c.runs = r.chance( 20 )? 2: 1;
    c.again = c.rhs != "bouncing_ball" && r.chance( 15 );
    c.outs = outputs( r );
    run( id, c, &r );
}
int main( int argc, char **argv ) {
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        OdeNumIntClassesRegistrator<VD> reg;
        ctm::testmodels::OdeTestModelClassesRegistrator<VD> models;
        Scripted::Registrator r1( "scripted" ); Plain::Registrator r2( "plain" ); Recorder::Registrator r3( "recorder" );
        char d[] = "/tmp/verif-run-XXXXXX";
        if( !mkdtemp( d ) ) throw std::runtime_error( "no scratch directory" );
        scratch = d;
        if( a[0] == "gen" ) {
            int k = 0;
            for( auto& s : readScenarios( a[1] ) ) {
                if( ++k%std::stoi( a[3] ) != std::stoi( a[2] ) ) continue;
                Rng r( k );
                int variant = k%3;
                auto& g = s["cfg"];
                Case c;
                c.solver = "scripted"; c.rhs = "plain"; c.exact = true;
                c.rhsPar["n2"] = unsigned( variant%2 ); c.rhsPar["n1"] = unsigned( 2 - 2*( variant%2 ) );
                c.init = g["init"].s == "given";
                c.initTime = 3; c.initState = { 0.5, -2 }; c.passedTime = 5; c.passedState = { 0.25, 7 };
                c.duration = g["duration"].d(); c.timing = g["timing"].d();
                unsigned max = g["max"].i();
                c.outs = { { "stats", variant? "con_general": "stats_full", true, 0, 0, "" }, { "con", variant == 1? "recorder": "con_solution", false, unsigned( variant ), 0, "" }, { "file", "con_solution_columnwise", true, 0, max, "" } };
                c.key = g["init"].s + "/" + dstr( c.duration ) + "/" + dstr( c.timing ) + "/" + std::to_string( max ) + "/" + std::to_string( variant );
                script.clear();
                for( auto& x : s["atts"].a ) script.push_back( attempt( r, x["h"].d(), x["accepted"].b, x["changed"].b, x["truncated"].b ) );
                run( "run-gen-" + std::to_string( k ), c );
            }
        }
        else {
            uint64_t seed = std::stoull( a[0] );
            int n = std::stoi( a[1] );
            for( int i=0; i<n; ++i ) {
                Rng r( seed*7717 + i );
                std::string id = "run-" + std::to_string( seed ) + "-" + std::to_string( i );
                if( r.chance( 60 ) ) scripted( r, id ); else real( r, id );
            }
        }
        rmdir( d );
    } );
}
