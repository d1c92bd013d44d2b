// ode.cpp: random systems, solvers and histories of calls; the trace is checked against TraceOdeSolver.tla.
// arguments: gen FILE, or: kinds (comma separated) profile (plain, events, raw, ctl) seed number
// link: regs_ode regs_alg regs_common
#include "solverbox.h"
#include "json.h"

// more step sizes than the cache of factorisations of the Rosenbrock solvers holds, each used several times
static void runMany( Rng& r, const std::string& kind ) {
    System s = randSystem( r, r.chance( 50 )? 1: 0, r.range( 1, 2 ) );
    auto x0 = randState( r, s.n() );
    Par p = randPar( r, kind, s );
    p.disable = true;
    p.hInit = 0.0625;
    SolverBox b( p, s );
    b.config();
    b.state( 0, x0 );
    int n = r.range( 101, 125 );
    for( int k=0; k<2; ++k )
        for( int i=0; i<( k? 15: n ); ++i ) {
            b.stepSize( ( 16 + ( k? r.below( n ): i ) )/512. );
            if( !b.step() ) b.state( b.solver->initialTime(), randState( r, s.n() ), true );
        }
}

static void run( Rng& r, const std::string& kind, const std::string& profile ) {
    if( profile == "many" ) return runMany( r, kind );
    bool small = kind == "extrap";
    System s = randSystem( r, small? 1: 2, 2 );
    double t0 = r.dyadic( 2, 8 );
    auto x0 = randState( r, s.n() );
    Par p = randPar( r, kind, s );
    bool ev = profile == "events" || profile == "raw";
    if( ev ) {
        addZeroFns( r, s, t0, x0, r.range( 0, 3 ) );
        if( s.zf.empty() ) { s.hasStop = true; s.tstop = t0 + r.range( 1, 40 )/32.; }
        p.ecNone = false;
        p.wrap = profile == "events";
        if( p.kind() == "alpha" && r.chance( 50 ) ) p.pred.clear();
    }
    if( profile == "raw" && !r.chance( 50 ) ) p.w1 = false;
    if( profile == "ctl" || ( ev && r.chance( 40 ) ) ) {
        p.ctl = r.chance( 75 )? "scripted": "logged";
        p.hMin = r.chance( 50 )? 1./1024: 1./128;
        p.pctThrow = r.chance( 30 )? 10: 0;
    }
    if( profile == "ctl" && r.chance( 50 ) ) { addZeroFns( r, s, t0, x0, r.range( 1, 2 ) ); p.ecNone = false; p.wrap = true; }
    if( profile == "fail" ) { p.maxIter = r.range( 1, 3 ); p.atol = 1e-14; p.limited = true; }
    SolverBox b( p, s, r.chance( 60 ) );
    b.config();
    int starts = profile == "plain"? r.range( 1, 2 ): r.range( 1, 2 );
    for( int k=0; k<starts; ++k ) {
        if( k ) {
            x0 = randState( r, s.n() ); t0 = r.dyadic( 2, 8 );
            if( s.hasStop ) { b.rhs->sys.hasStop = true; b.rhs->sys.tstop = t0 + r.range( 1, 40 )/32.; Ev( "stop" ).d( "t", b.rhs->sys.tstop ); }
        }
        double h = k? r.pick( std::vector<double>{ 0.0625, 0.25, 0.1875, 0.375 } ): p.hInit;
        // Rosenbrock solvers keep the current step size over a restart until it is set
        if( kind != "sw24" && r.chance( 50 ) ) { b.stepSize( h ); b.state( t0, x0 ); }
        else { b.state( t0, x0 ); b.stepSize( h ); }
        int n = r.range( 1, ev? 10: 5 );
        for( int i=0; i<n; ++i ) {
            if( !b.step() ) {
                // a failed step may be tried again with another step size and more iterations
                if( kind != "alpha" || !b.failed || !r.chance( 70 ) ) break;
                if( p.limited ) b.iterations( r.range( 1, 50 ) );
                b.stepSize( b.par.hInit*r.pick( std::vector<double>{ 0.5, 0.25, 0.125, 1.5 } ) );
                continue;
            }
            if( kind == "gragg" && r.chance( 10 ) ) b.stepSize( r.pick( std::vector<double>{ 0.0625, 0.125, 0.25 } ) );
            if( kind == "alpha" && r.chance( 10 ) ) b.stepSize( r.pick( std::vector<double>{ 0.0625, 0.125, 0.25 } ) );
            if( ( kind == "w1" || kind == "sw24" ) && r.chance( 15 ) ) b.stepSize( r.pick( std::vector<double>{ 0.0625, 0.125, 0.25 } ) );
            if( ( kind == "w1" || kind == "sw24" ) && r.chance( 15 ) && !b.rhs->sys.hasStop ) b.state( b.solver->initialTime() + r.dyadic( 1, 4 ), randState( r, s.n() ), true );
        }
    }
}

// a history generated from MCOdeSolver
static void replay( const Json& j ) {
    System s;
    s.n1 = 1;
    Term one; one.c = 1; one.p = { 0, 0 };
    Term two = one; two.c = j["speed"].d();
    s.f[0].push_back( Poly{ one } );
    s.f[1].push_back( Poly{ two } );
    for( auto& z : j["zf"].a ) {
        ZeroFn q; q.j = z["j"].i() - 1; q.c = z["c"].d(); q.sgn = z["sgn"].i(); q.flags = z["flags"].i(); q.toggle = z["toggle"].b;
        s.zf.push_back( q );
    }
    Par p;
    p.solver = j["name"].s; p.smooth = j["smooth"].b; p.disable = j["disable"].b;
    p.hInit = 0.5; p.hMin = 1./16; p.ctl = "scripted"; p.wrap = true; p.maxStages = 2; p.ref = "euler"; p.tol = 1; p.ins = 1;
    SolverBox b( p, s );
    b.config();
    if( b.ctl ) b.ctl->useScript = true;
    b.stepSize( 0.5 );
    for( auto& o : j["ops"].a ) {
        std::string op = o["op"].s;
        if( op == "state" ) { b.rhs->phase = 0; b.state( 0, { o["h"].d() } ); }
        else if( op == "seth" ) b.stepSize( o["h"].d() );
        else {
            if( b.ctl ) { b.ctl->script.clear(); for( auto& d : o["dec"].a ) b.ctl->script.push_back( d.s ); }
            b.step();
        }
    }
}

int main( int argc, char **argv ) {
    Registrations reg;
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        if( a[0] == "gen" ) {
            int i = 0;
            for( auto& j : readScenarios( a[1] ) ) { scenario( "ode-gen-" + std::to_string( i++ ) ); replay( j ); }
            return;
        }
        std::vector<std::string> kinds;
        std::stringstream ss( a[0] );
        for( std::string k; std::getline( ss, k, ',' ); ) kinds.push_back( k );
        std::string profile = a[1];
        uint64_t seed = std::stoull( a[2] );
        int n = std::stoi( a[3] );
        for( int i=0; i<n; ++i ) {
            std::string k = kinds[i % kinds.size()];
            Rng r( seed*100003 + i );
            scenario( k + "-" + profile + "-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            run( r, k, profile );
        }
    } );
}
