// restart.cpp: the same run by a new solver and by one that has a past.
// arguments: kinds (comma separated) seed number
// link: regs_ode regs_alg regs_common
#include "solverbox.h"

static void configure( SolverBox& b, const Par& p ) {
    b.solver->setParameters( SolverBox::commonParams( p ) );
    if( p.adaptive() && p.ctl == "default" )
        dynamic_cast< OdeStepSizeControllerHolder<VD>* >( b.solver.get() )->odeStepSizeController()->setParameters( SolverBox::ctlParams( p ) );
}
static void use( SolverBox& b, const System& s ) { b.rhs->sys = s; b.rhs->phase = 0; }
// the run that is compared
static void measured( SolverBox& b, const Par& p, const System& s, double t0, const std::vector<double>& x0, double h, bool hFirst, int n, uint64_t seed ) {
    use( b, s );
    b.setQuiet( false );
    if( b.ctl ) { b.ctl->rng = Rng( seed ); b.ctl->rejects = 0; }
    if( hFirst ) { b.stepSize( h ); b.state( t0, x0 ); }
    else { b.state( t0, x0 ); b.stepSize( h ); }
    for( int i=0; i<n; ++i ) if( !b.step() ) break;
    Ev( "over" );
}
static void run( Rng& r, const std::string& kind ) {
    System s = randSystem( r, kind == "extrap"? 1: 2, 2 );
    Par p = randPar( r, kind, s );
    double t0 = r.dyadic( 2, 8 );
    auto x0 = randState( r, s.n() );
    bool ev = r.chance( 60 );
    if( ev ) {
        addZeroFns( r, s, t0, x0, r.range( 0, 3 ) );
        if( s.zf.empty() ) { s.hasStop = true; s.tstop = t0 + r.range( 1, 40 )/32.; }
        p.ecNone = false;
    }
    if( r.chance( 50 ) ) { p.ctl = "scripted"; p.hMin = 1./1024; }
    double h = r.pick( std::vector<double>{ 0.0625, 0.25, 0.1875, 0.375 } );
    // a Rosenbrock solver keeps its step size over a restart, so it is set afterwards
    bool hFirst = r.chance( 50 );
    int n = r.range( 1, 6 );
    uint64_t seed = r.next();
    std::string throws;
    {
        SolverBox a( p, s );
        Ev( "first" ).s( "name", p.solver ).raw( "par", p.json() );
        measured( a, p, s, t0, x0, h, hFirst, n, seed );
    }
    SolverBox b( p, s );
    b.setQuiet( true );
    int rounds = r.range( 1, 2 );
    for( int k=0; k<rounds; ++k ) {
        // the past: other states, step sizes, models, parameters
        System s2 = s;
        Par p2 = p;
        bool other = r.chance( 40 );
        if( other ) {
            s2 = randSystem( r, kind == "extrap"? 1: 2, 2 );
            if( ev ) addZeroFns( r, s2, t0, randState( r, s2.n() ), r.range( 0, 3 ) );
            // reordering and predictors are set up for one number of variables
            if( kind == "alpha" && ( s2.n2 != s.n2 || s2.n1 != s.n1 ) ) { s2 = s; other = false; }
        }
        if( r.chance( 40 ) ) {
            Par q = randPar( r, kind, s2 );
            p2.high = q.high; p2.disable = q.disable; p2.force = q.force; p2.smooth = q.smooth; p2.symmetric = q.symmetric; p2.maxStages = q.maxStages;
            p2.d = q.d; p2.alpha = q.alpha; p2.tol = q.tol; p2.hMin = q.hMin;
            if( p.solver == "i_euler" || p.solver == "trapezoid" ) p2.alpha = p.alpha;
            configure( b, p2 );
        }
        if( other && r.chance( 60 ) ) { b.rhs = std::make_shared< PolyRhs >(); b.rhs->quiet = true; b.rhs->sys = s2; b.solver->setOdeRhs( b.rhs ); }
        else use( b, s2 );
        int starts = r.range( 1, 2 );
        for( int q=0; q<starts; ++q ) {
            double t = r.dyadic( 2, 8 );
            if( s2.hasStop ) { b.rhs->sys.hasStop = true; b.rhs->sys.tstop = t + r.range( 1, 40 )/32.; }
            b.rhs->phase = 0;
            b.state( t, randState( r, s2.n() ) );
            if( r.chance( 70 ) ) b.stepSize( r.pick( std::vector<double>{ 0.0625, 0.5, 0.25, 0.125 } ) );
            int m = r.range( 0, 8 );
            for( int i=0; i<m; ++i ) {
                if( !b.step() ) break;
                if( r.chance( 10 ) ) b.stepSize( r.pick( std::vector<double>{ 0.0625, 0.5, 0.25 } ) );
                if( r.chance( 10 ) && !s2.hasStop ) b.state( b.solver->initialTime() + r.dyadic( 1, 4 ), randState( r, s2.n() ), true );
            }
        }
        configure( b, p );
        if( other && r.chance( 50 ) ) { b.rhs = std::make_shared< PolyRhs >(); b.rhs->quiet = true; b.rhs->sys = s; b.solver->setOdeRhs( b.rhs ); }
        Ev( "again" );
        // the step size is set after the state
        measured( b, p, s, t0, x0, h, hFirst && kind != "w1" && kind != "sw24"? true: hFirst, n, seed );
        b.setQuiet( true );
    }
}
int main( int argc, char **argv ) {
    Registrations reg;
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        std::vector<std::string> kinds;
        std::stringstream ss( a[0] );
        for( std::string k; std::getline( ss, k, ',' ); ) kinds.push_back( k );
        uint64_t seed = std::stoull( a[1] );
        for( int i=0; i<std::stoi( a[2] ); ++i ) {
            std::string k = kinds[i % kinds.size()];
            Rng r( seed*100019 + i );
            scenario( k + "-restart-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            run( r, k );
        }
    } );
}
