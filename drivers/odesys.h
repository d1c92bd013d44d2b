// odesys.h: ODE systems given by polynomials, logging components, registration of the library's types.
#ifndef VERIF_ODESYS_H
#define VERIF_ODESYS_H
#include "common.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/ode/reg/OdeSolverClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverCommonClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceRomberg.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceBulirsch.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceHarmonic.h"

using namespace ctm;
using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OptionalParameters::Parameters Params;

// Each in a file of its own, which the drivers name in a "link:" line
void registerOdeSolvers();
void registerAlgebraic();
void registerCommon();
struct Registrations {
    Registrations() { registerOdeSolvers(); registerAlgebraic(); registerCommon(); }
};

inline V toV( const std::vector<double>& x ) { V r( x.size() ); for( size_t i=0; i<x.size(); ++i ) r[i] = x[i]; return r; }
inline std::vector<double> fromV( const V& x ) { std::vector<double> r( x.size() ); for( size_t i=0; i<r.size(); ++i ) r[i] = x[i]; return r; }

struct ZeroFn {
    int j = -1;             // variable, or -1 for the time
    double c = 0;           // value at which it is zero
    int sgn = 1;
    unsigned flags = 3;
    bool toggle = false;    // its event exchanges the two right-hand sides
    std::vector<Poly> jump; // new state, empty for no change
};

struct System {
    int n2 = 0, n1 = 0;
    std::vector<Poly> f[2];
    std::vector<ZeroFn> zf;
    bool hasStop = false; double tstop = 0;   // truncateStep
    int n() const { return 2*n2 + n1; }
    std::string json() const {
        std::string z = "[";
        for( size_t i=0; i<zf.size(); ++i ) {
            if( i ) z += ",";
            z += "{\"j\":" + std::to_string( zf[i].j + 1 ) + ",\"c\":" + jd( zf[i].c ) + ",\"sgn\":" + std::to_string( zf[i].sgn )
                + ",\"flags\":" + std::to_string( zf[i].flags ) + ",\"toggle\":" + ( zf[i].toggle? "true": "false" ) + "}";
        }
        z += "]";
        return "{\"n2\":" + std::to_string(n2) + ",\"n1\":" + std::to_string(n1) + ",\"f\":[" + jpolys( f[0] ) + "," + jpolys( f[1] )
            + "],\"zf\":" + z + ",\"stop\":" + ( hasStop? "[" + jd(tstop) + "]": "[]" ) + "}";
    }
};

class PolyRhs : public OdeRhs<VD>, public FactoryMixin< PolyRhs, OdeRhs<VD> > {
public:
    System sys;
    int phase = 0;
    bool quiet = false;
    mutable bool wild = false;      // asked for values far from where its polynomials are tame
    unsigned rhsCalls = 0;
    typedef OdeRhs<VD>::real_type real_type;
    unsigned int secondOrderVarCount() const { return sys.n2; }
    unsigned int firstOrderVarCount() const { return sys.n1; }
    unsigned int zeroFuncCount() const { return sys.zf.size(); }
    std::vector<unsigned int> zeroFuncFlags() const {
        std::vector<unsigned int> r;
        for( auto& z : sys.zf ) r.push_back( z.flags );
        return r;
    }
    void rhs( V& dst, real_type time, const V& x ) const {
        this->odeRhsPreObservers( time, x, this );
        ++const_cast<PolyRhs*>(this)->rhsCalls;
        std::vector<double> xx = fromV( x );
        if( !wild && !quiet ) {
            double m = 0;
            for( double a : xx ) if( !( std::fabs( a ) <= m ) ) m = std::fabs( a );
            if( !( m <= 1e3 ) ) { wild = true; Ev( "wild" ); }
        }
        dst.resize( sys.n() );
        for( int i=0; i<sys.n(); ++i ) dst[i] = evalPoly( sys.f[phase][i], time, xx.data() );
        this->odeRhsPostObservers( time, x, dst, this );
    }
    void zeroFunctions( V& dst, real_type time, const V& x ) const {
        for( size_t i=0; i<sys.zf.size(); ++i ) {
            auto& z = sys.zf[i];
            dst[i] = z.sgn * ( ( z.j < 0? time: x[z.j] ) - z.c );
        }
    }
    void switchPhaseState( const int *tr, real_type time, V& x ) {
        std::vector<double> xin = fromV( x ), xout = xin;
        for( size_t i=0; i<sys.zf.size(); ++i )
            if( tr[i] ) {
                if( sys.zf[i].toggle ) phase = 1 - phase;
                if( !sys.zf[i].jump.empty() )
                    for( int k=0; k<sys.n(); ++k ) xout[k] = evalPoly( sys.zf[i].jump[k], time, xin.data() );
            }
        for( int k=0; k<sys.n(); ++k ) x[k] = xout[k];
        if( !quiet )
            Ev( "switch" ).vi( "tr", std::vector<int>( tr, tr + sys.zf.size() ) ).d( "t", time ).v( "xin", xin ).v( "xout", xout ).i( "phase", phase );
    }
    bool truncateStep( real_type& tEnd, V& xEnd ) const {
        if( !sys.hasStop || !( tEnd > sys.tstop ) ) return false;
        auto xin = fromV( xEnd );
        double t2 = tEnd;
        tEnd = sys.tstop;
        for( int k=0; k<sys.n(); ++k ) xEnd[k] = std::ldexp( xEnd[k], -1 );
        auto self = const_cast<PolyRhs*>(this);
        self->sys.hasStop = false;
        if( !quiet )
            Ev( "trunc" ).d( "t2", t2 ).v( "xin", xin ).d( "t", tEnd ).v( "x", fromV( xEnd ) );
        return true;
    }
};

// An event controller that logs its calls and leaves the work to the library's one.
class LoggingEventController : public OdeEventController<VD>, public FactoryMixin< LoggingEventController, OdeEventController<VD> > {
public:
    std::shared_ptr< OdeEventController<VD> > inner;
    bool quiet = false;
    LoggingEventController() {
        inner = Factory< OdeEventController<VD> >::newInstance( "linear" );
        this->onOdeRhsChanged( [this]() { inner->setOdeRhs( this->odeRhs() ); } );
    }
    void reset() { if( !quiet ) Ev( "ecReset" ); inner->reset(); }
    void atStepStart( const V& x1, double t1 ) {
        if( !quiet ) Ev( "ecStart" ).d( "t", t1 ).v( "x", fromV( x1 ) );
        inner->atStepStart( x1, t1 );
    }
    bool atStepEnd( const V& x1, V& x2, double& t2, Interpolator ip, unsigned int *izf = nullptr, int *tt = nullptr ) {
        if( !quiet ) Ev( "ecEnd" ).v( "x1", fromV( x1 ) ).v( "x2", fromV( x2 ) ).d( "t2", t2 );
        unsigned iz = ~0u; int ty = 0;
        bool r = inner->atStepEnd( x1, x2, t2, ip, &iz, &ty );
        if( izf ) *izf = iz;
        if( tt ) *tt = ty;
        if( !quiet ) Ev( "ecOut" ).b( "r", r ).i( "izf", iz == ~0u? 0: (long long)iz + 1 ).i( "tt", ty ).d( "t2", t2 ).v( "x2", fromV( x2 ) );
        return r;
    }
};

// A step-size controller that follows a script, or leaves the work to the library's one; logs decisions.
class LoggingStepSizeController : public OdeStepSizeController<VD>, public FactoryMixin< LoggingStepSizeController, OdeStepSizeController<VD> > {
public:
    std::shared_ptr< OdeStepSizeController<VD> > inner;     // null: scripted
    mutable Rng rng{ 1 };
    mutable int rejects = 0;
    mutable std::vector<std::string> script;                // decisions to make, then keep
    int pctThrow = 0;
    double hMin = 0;
    bool quiet = false, useScript = false;
    Result controlStepSize( double h, double err, double order ) const {
        Result r( h, true, false );
        if( inner ) r = inner->controlStepSize( h, err, order );
        else if( useScript ) {
            std::string d = "keep";
            if( !script.empty() ) { d = script[0]; script.erase( script.begin() ); }
            r = d == "shrink"? Result( h/2, true, true ): d == "grow"? Result( h*2, true, true ): d == "reject"? Result( h/2, false, true ): Result( h, true, false );
        }
        else {
            static const double down[] = { 0.5, 0.75, 0.25, 0.625 }, up[] = { 1.5, 2, 1.25 };
            if( rng.chance( pctThrow ) ) r = Result( hMin*( rng.chance( 50 )? 1: 0.5 ), rng.chance( 50 ), true );
            else if( rejects < 3 && rng.chance( 40 ) ) r = Result( h*down[rng.below( 4 )], false, true );
            else if( rejects < 3 && rng.chance( 5 ) ) r = Result( h*0.5, false, false );
            else if( rng.chance( 35 ) ) r = Result( h*( h < 0.3? up[rng.below( 3 )]: down[rng.below( 4 )] ), true, true );
            else r = Result( rng.chance( 50 )? h: h*2, true, false );
            rejects = r.acceptStep? 0: rejects + 1;
        }
        if( !quiet ) Ev( "ctl" ).d( "h", h ).d( "err", err ).d( "order", order ).d( "newh", r.newStepSize ).b( "acc", r.acceptStep ).b( "chg", r.changeStepSize );
        return r;
    }
};

// sum of |e_i|*(i+1), for the variables of the right hand side it has been told about
class WeightedNorm : public ErrorNormCalculator<VD>, public FactoryMixin< WeightedNorm, ErrorNormCalculator<VD> > {
public:
    double errorNorm( const V& e ) const {
        double s = 0;
        auto rhs = this->odeRhs();
        for( size_t i=0; i<e.size() && rhs && i<rhs->varCount(); ++i ) s += std::fabs( e[i] )*( i+1 );
        return s;
    }
};

inline Poly randPoly( Rng& r, int n, int maxDeg, int terms, int self, bool lin = false ) {
    Poly p;
    for( int k=0; k<terms; ++k ) {
        Term t;
        t.c = r.dyadic( 2, 8 );
        if( t.c == 0 ) t.c = 0.125;
        t.p.assign( n+1, 0 );
        int deg = lin? ( r.chance( 80 )? 1: 0 ): r.range( 0, maxDeg );
        for( int d=0; d<deg; ++d ) ++t.p[ r.chance( 20 )? 0: 1 + r.below( n ) ];
        if( deg > 1 ) t.c /= 4;
        p.push_back( t );
    }
    if( self >= 0 ) {
        Term t; t.c = -0.5; t.p.assign( n+1, 0 ); t.p[self+1] = 1;
        p.push_back( t );
    }
    return p;
}

inline System randSystem( Rng& r, int maxN2, int maxN1 ) {
    System s;
    do { s.n2 = r.range( 0, maxN2 ); s.n1 = r.range( 0, maxN1 ); } while( s.n() == 0 );
    for( int ph=0; ph<2; ++ph )
        for( int i=0; i<s.n(); ++i ) {
            if( i < s.n2 ) {
                Term t; t.c = 1; t.p.assign( s.n()+1, 0 ); t.p[s.n2+i+1] = 1;
                s.f[ph].push_back( Poly{ t } );
            }
            else s.f[ph].push_back( randPoly( r, s.n(), r.chance( 25 )? 3: 2, r.range( 1, 4 ), i ) );
        }
    return s;
}
inline std::vector<double> randState( Rng& r, int n ) {
    std::vector<double> x;
    for( int i=0; i<n; ++i ) x.push_back( r.dyadic( 2, 16 ) );
    return x;
}
inline void addZeroFns( Rng& r, System& s, double t0, const std::vector<double>& x0, int nz ) {
    static const unsigned flags[] = { 1, 2, 3, 5, 6, 7 };
    for( int k=0; k<nz; ++k ) {
        ZeroFn z;
        z.j = r.chance( 15 )? -1: r.below( s.n() );
        z.flags = flags[r.below( 6 )];
        z.sgn = r.chance( 50 )? 1: -1;
        double base = z.j < 0? t0: x0[z.j];
        z.c = base + ( r.chance( 10 )? 0: r.dyadic( 1, 32 )*( z.j < 0? 1: 0.5 ) );
        if( z.j < 0 && r.chance( 70 ) ) z.c = base + std::fabs( r.dyadic( 1, 32 ) );
        z.toggle = r.chance( 40 );
        if( r.chance( 50 ) )
            for( int i=0; i<s.n(); ++i ) {
                Poly p;
                Term t; t.p.assign( s.n()+1, 0 ); t.p[i+1] = 1;
                t.c = r.chance( 40 )? -r.range( 1, 4 )/4.: 1;
                p.push_back( t );
                if( r.chance( 20 ) ) { Term u; u.c = r.dyadic( 1, 8 ); u.p.assign( s.n()+1, 0 ); p.push_back( u ); }
                z.jump.push_back( p );
            }
        s.zf.push_back( z );
    }
}
inline double maxAbs( const V& x ) { double m = 0; for( size_t i=0; i<x.size(); ++i ) { double a = std::fabs( x[i] ); if( !( a <= m ) ) m = a; } return m; }
#endif
