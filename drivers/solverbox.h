// solverbox.h: an ODE solver of the library with its parameters, set up so that everything it does is logged.
#ifndef VERIF_SOLVERBOX_H
#define VERIF_SOLVERBOX_H
#include "odesys.h"

struct Par {
    std::string solver;                 // registered name
    double hInit = 0.125, hMin = 1e-16;
    double tol = 1e-3, ins = 0.8, incMin = 1.3, incMax = 2, decMax = 0.1, maxThr = 0;
    bool disable = false, force = false; double hSwitch = 0; bool high = false;
    bool smooth = false;
    bool symmetric = false; int maxStages = 4; std::string seq = "harmonic", ref = "gragg"; bool refSmooth = false;
    double d = 1;
    double alpha = 1; std::string pred; int predSteps = 1; std::vector<unsigned> reorder; int reMode = 0; std::string ddir = "simple"; int maxIter = 100;
    double atol = 1e-10;
    std::string ctl = "default";        // default, scripted, logged
    int pctThrow = 0; uint64_t ctlSeed = 1;
    bool wrap = false, w1 = false, limited = false;
    bool ecNone = false;                // no event controller at all
    bool decoy = false;                 // the solver is set up for another model before it gets its own
    std::string kind() const {
        if( solver == "euler" || solver == "rk4" ) return "rk";
        if( solver.compare( 0, 5, "dopri" ) == 0 ) return "emb";
        if( solver == "gragg" ) return "gragg";
        if( solver == "extrapolator" ) return "extrap";
        if( solver == "rosenbrock_w1" ) return "w1";
        if( solver == "rosenbrock_sw2_4" ) return "sw24";
        return "alpha";
    }
    bool adaptive() const { auto k = kind(); return k == "emb" || k == "extrap" || k == "sw24"; }
    std::string json() const {
        std::string r = "{\"hInit\":" + jd(hInit) + ",\"hMin\":" + jd(hMin) + ",\"tol\":" + jd(tol) + ",\"ins\":" + jd(ins)
            + ",\"incMin\":" + jd(incMin) + ",\"incMax\":" + jd(incMax) + ",\"decMax\":" + jd(decMax) + ",\"maxThr\":" + jd(maxThr)
            + ",\"disable\":" + ( disable? "true": "false" ) + ",\"force\":" + ( force? "true": "false" ) + ",\"hSwitch\":" + jd(hSwitch)
            + ",\"mode\":" + ( high? "1": "2" ) + ",\"smooth\":" + ( smooth? "true": "false" )
            + ",\"symmetric\":" + ( symmetric? "true": "false" ) + ",\"maxStages\":" + std::to_string( maxStages )
            + ",\"seq\":" + jstr(seq) + ",\"ref\":{\"kind\":" + jstr(ref) + ",\"smooth\":" + ( refSmooth? "true": "false" ) + "}"
            + ",\"d\":" + jd(d) + ",\"alpha\":" + jd(alpha) + ",\"atol\":" + jd(atol)
            + ",\"ctl\":" + jstr(ctl) + ",\"norm\":" + ( w1? "\"w1\"": "\"inf\"" ) + "}";
        return r;
    }
};

class SolverBox {
public:
    Par par;
    std::shared_ptr< OdeSolver<VD> > solver;
    std::shared_ptr< PolyRhs > rhs;
    std::shared_ptr< LoggingEventController > ec;
    std::shared_ptr< LoggingStepSizeController > ctl;
    bool quiet = false, failed = false;

    static Params commonParams( const Par& p ) {
        Params r;
        auto k = p.kind();
        r["h_min"] = p.hMin;
        if( k == "emb" ) {
            r["disable_error_check"] = p.disable; r["force_error_calc"] = p.force;
            r["h_after_switch"] = p.hSwitch; r["mode"] = p.high? "high": "low";
        }
        if( k == "gragg" ) r["smooth"] = p.smooth;
        if( k == "extrap" ) { r["symmetric"] = p.symmetric; r["disable_error_check"] = p.disable; r["max_stages"] = p.maxStages; }
        if( k == "w1" ) r["d"] = p.d;
        if( k == "sw24" ) { r["d"] = p.d; r["disable_error_check"] = p.disable; }
        if( k == "alpha" ) r["alpha"] = p.alpha;
        return r;
    }
    static Params ctlParams( const Par& p ) {
        Params r;
        r["tolerance"] = p.tol; r["insurance"] = p.ins; r["inc_min_factor"] = p.incMin; r["inc_max_factor"] = p.incMax;
        r["dec_max_factor"] = p.decMax; r["max_threshold"] = p.maxThr;
        return r;
    }

    SolverBox( const Par& p, const System& s, bool rhsFirst = true ) : par( p ) {
        rhs = std::make_shared< PolyRhs >();
        rhs->sys = s;
        solver = Factory< OdeSolver<VD> >::newInstance( p.solver );
        std::shared_ptr< PolyRhs > other;
        if( p.decoy ) {
            other = std::make_shared< PolyRhs >();
            other->quiet = true;
            other->sys.n1 = 3;
            Term one; one.c = 1; one.p = { 0, 0, 0, 0 };
            for( int ph=0; ph<2; ++ph ) other->sys.f[ph].assign( 3, Poly{ one } );
            ZeroFn z; z.j = -1; z.flags = 3; z.sgn = 1; z.c = 0.01; z.toggle = true;
            other->sys.zf.assign( 2, z );
            if( rhsFirst ) solver->setOdeRhs( other );
        }
        else if( rhsFirst ) solver->setOdeRhs( rhs );
        auto k = p.kind();
        solver->setParameters( commonParams( p ) );
        if( k == "extrap" ) {
            Params q;
            Params rp;
            if( p.ref == "gragg" ) rp["smooth"] = p.refSmooth;
            q["step_sequence"] = OptionalParameters::Value( p.seq, Params() );
            q["reference_solver"] = OptionalParameters::Value( p.ref, rp );
            solver->setParameters( q );
        }
        if( k == "alpha" ) {
            auto ns = dynamic_cast< NewtonSolverHolder<VD>* >( solver.get() )->newtonSolver();
            auto dd = Factory< NewtonDescentDirection<VD> >::newInstance( p.ddir );
            dd->setJacobianProvider( Factory< JacobianProvider<VD> >::newInstance( "default" ) );
            ns->setComponent( dd );
            Params ep; ep["abs_tol"] = p.atol; ep["rel_tol"] = 1e-3;
            ns->iterationPerformer()->errorEstimator()->setParameters( ep );
            ns->setIterationCountLimit( p.maxIter );
            if( !p.reorder.empty() ) {
                auto ro = std::make_shared< VectorReorderingMapping<VD> >();
                ro->setInputOrdering( p.reorder );
                ro->setOutputOrdering( p.reorder );
                auto ie = dynamic_cast< OdeSolverImplicitEuler<VD>* >( solver.get() );
                if( p.reMode == 1 ) ro->setMapping( std::make_shared< OdeStepMappingEuler<VD> >() );    // it has been used elsewhere
                ie->setReorder( ro );
                if( p.reMode == 2 ) ie->setReorder( nullptr );
            }
            if( !p.pred.empty() ) {
                Params q;
                q["predictor"] = p.pred; q["predictor_steps"] = p.predSteps;
                solver->setParameters( q );
            }
        }
        if( p.adaptive() ) {
            auto h = dynamic_cast< OdeStepSizeControllerHolder<VD>* >( solver.get() );
            if( p.ctl == "default" ) h->odeStepSizeController()->setParameters( ctlParams( p ) );
            else {
                ctl = std::make_shared< LoggingStepSizeController >();
                ctl->rng = Rng( p.ctlSeed );
                ctl->pctThrow = p.pctThrow;
                ctl->hMin = p.hMin;
                if( p.ctl == "logged" ) {
                    ctl->inner = Factory< OdeStepSizeController<VD> >::newInstance( "simple" );
                    ctl->inner->setParameters( ctlParams( p ) );
                }
                h->setOdeStepSizeController( ctl );
            }
            if( p.w1 ) dynamic_cast< ErrorNormCalculatorHolder<VD>* >( solver.get() )->setErrorNormCalculator( std::make_shared< WeightedNorm >() );
        }
        if( p.wrap ) {
            ec = std::make_shared< LoggingEventController >();
            dynamic_cast< OdeEventControllerHolder<VD>* >( solver.get() )->setEventController( ec );
        }
        else if( p.ecNone ) dynamic_cast< OdeEventControllerHolder<VD>* >( solver.get() )->setEventController( nullptr );
        if( p.decoy && !rhsFirst ) solver->setOdeRhs( other );
        if( p.decoy || !rhsFirst ) solver->setOdeRhs( rhs );
        solver->odeSolverPreObservers.add( [this]( double h, const OdeSolver<VD> *s ) {
            if( !quiet ) Ev( "pre" ).d( "h", h ).d( "t", s->initialTime() ).v( "x", fromV( s->initialState() ) );
        } );
        solver->odeSolverPostObservers.add( [this]( const OdeSolverPostObserverArg<VD>& a ) {
            if( !quiet ) Ev( "post" ).d( "h", a.stepSize() ).b( "acc", a.stepAccepted() ).b( "chg", a.stepSizeChanged() ).b( "trunc", a.stepTruncated() )
                .d( "err", a.errorNorm() ).i( "izf", a.izfTrunc() == ~0u? 0: (long long)a.izfTrunc() + 1 ).i( "tt", a.transitionType() )
                .d( "t", a.solver()->initialTime() ).v( "x", fromV( a.solver()->initialState() ) ).b( "self", a.solver() == solver.get() );
        } );
    }
    void setQuiet( bool q ) {
        quiet = q;
        rhs->quiet = q;
        if( ec ) ec->quiet = q;
        if( ctl ) ctl->quiet = q;
    }
    void config() {
        Ev( "config" ).s( "name", par.solver ).s( "kind", par.kind() ).raw( "sys", rhs->sys.json() ).raw( "par", par.json() )
            .b( "wrap", par.wrap ).b( "raw", !par.wrap && !par.ecNone ).b( "limited", par.limited ).s( "ddir", par.ddir ).s( "pred", par.pred ).i( "predSteps", par.predSteps ).i( "order", solver->order() );
    }
    void state( double t, const std::vector<double>& x, bool soft = false ) {
        if( !quiet ) Ev( "state" ).d( "t", t ).v( "x", x ).b( "soft", soft ).i( "phase", rhs->phase ).b( "stop", rhs->sys.hasStop );
        rhs->wild = false;
        solver->setInitialState( t, toV( x ), soft );
        failed = false;
    }
    void stepSize( double h ) {
        par.hInit = h;
        if( !quiet ) Ev( "seth" ).d( "h", h );
        solver->setInitialStepSize( h );
    }
    void iterations( int n ) { dynamic_cast< NewtonSolverHolder<VD>* >( solver.get() )->newtonSolver()->setIterationCountLimit( n ); }
    // false when the step failed or left the range in which the model's arithmetic is adequate
    bool step() {
        try {
            solver->doStep();
            if( !quiet ) Ev( "done" ).d( "t", solver->initialTime() ).v( "x", fromV( solver->initialState() ) );
        }
        catch( std::exception& x ) {
            std::string w = x.what();
            if( !quiet ) Ev( "throw" ).s( "what", w.substr( 0, 200 ) ).d( "t", solver->initialTime() ).v( "x", fromV( solver->initialState() ) );
            failed = true;
            return false;
        }
        return maxAbs( solver->initialState() ) < 20;
    }
};

inline Par randPar( Rng& r, const std::string& kind, const System& s ) {
    Par p;
    static const double hs[] = { 1./16, 1./8, 3./16, 1./4, 5./16, 3./8, 0.5, 0.1 };
    p.hInit = hs[r.below( 8 )];
    if( kind == "rk" ) p.solver = r.chance( 40 )? "euler": "rk4";
    else if( kind == "emb" ) p.solver = r.pick( std::vector<std::string>{ "dopri_45", "dopri_56", "dopri_78" } );
    else if( kind == "gragg" ) p.solver = "gragg";
    else if( kind == "extrap" ) p.solver = "extrapolator";
    else if( kind == "w1" ) p.solver = "rosenbrock_w1";
    else if( kind == "sw24" ) p.solver = "rosenbrock_sw2_4";
    else p.solver = "i_euler";
    p.tol = r.pick( std::vector<double>{ 1e-2, 1e-3, 1e-4, 1e-5 } );
    p.ins = r.pick( std::vector<double>{ 0.8, 0.9, 0.5 } );
    p.incMin = r.pick( std::vector<double>{ 1.3, 0, 1.1 } );
    p.incMax = r.pick( std::vector<double>{ 2, 1.5, 0 } );
    p.decMax = r.pick( std::vector<double>{ 0.1, 0.5, 0 } );
    p.maxThr = r.chance( 70 )? 0: r.pick( hs[0] < 1? std::vector<double>{ 0.25, 0.5, 0.0625 }: std::vector<double>{} );
    p.disable = r.chance( 20 );
    p.force = r.chance( 30 );
    p.hSwitch = r.chance( 50 )? 0: r.pick( std::vector<double>{ 0.0625, 0.03125, 0.5 } );
    p.high = r.chance( 50 );
    p.smooth = r.chance( 50 );
    p.symmetric = r.chance( 50 );
    p.maxStages = r.range( 1, 5 );
    p.seq = r.pick( std::vector<std::string>{ "harmonic", "romberg", "bulirsch" } );
    p.ref = r.pick( std::vector<std::string>{ "gragg", "euler", "rk4" } );
    p.refSmooth = r.chance( 50 );
    if( p.ref == "rk4" || p.seq == "romberg" ) p.maxStages = std::min( p.maxStages, 4 );
    p.d = r.pick( std::vector<double>{ 1, 0.5, 0.75, 0.25 } );
    p.alpha = r.pick( std::vector<double>{ 1, 1, 0.5, 0.75, 0.25, 0 } );
    if( r.chance( 40 ) ) { p.pred = r.pick( std::vector<std::string>{ "euler", "rk4", "gragg", "dopri_45" } ); p.predSteps = r.range( 1, 3 ); }
    if( r.chance( 40 ) ) {
        for( int i=0; i<s.n2 + s.n1; ++i ) p.reorder.push_back( i );
        p.reMode = r.below( 3 );
        for( int i=(int)p.reorder.size()-1; i>0; --i ) std::swap( p.reorder[i], p.reorder[r.below( i+1 )] );
    }
    p.ddir = r.pick( std::vector<std::string>{ "simple", "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart" } );
    p.ctl = "default";
    p.ctlSeed = r.next();
    p.decoy = p.ctlSeed % 5 == 0;
    p.w1 = r.chance( 30 );
    p.ecNone = true;
    return p;
}
#endif
