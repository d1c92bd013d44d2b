// ssc.cpp: the default step-size controller called directly with many parameters, errors and step sizes.
// arguments: seed number
// link: regs_ode regs_alg regs_common
#include "odesys.h"
int main( int argc, char **argv ) {
    Registrations reg;
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*7919 + i );
            scenario( "ssc-" + std::to_string( seed ) + "-" + std::to_string( i ) );
            auto c = Factory< OdeStepSizeController<VD> >::newInstance( "simple" );
            Params p;
            double v[6] = { 1e-6, 0.8, 1.3, 2, 0.1, 0 };
            const char *names[6] = { "tolerance", "insurance", "inc_min_factor", "inc_max_factor", "dec_max_factor", "max_threshold" };
            static const std::vector<double> choice[6] = {
                { 1e-6, 1e-3, 0.5, 1 }, { 0.8, 1, 0.5, 0.9 }, { 1.3, 0, 1.1, 1 }, { 2, 0, 1.5, 5 }, { 0.1, 0, 0.5, 0.9 }, { 0, 0, 0.25, 1, 0.0625 } };
            int rounds = r.range( 1, 3 );
            for( int q=0; q<rounds; ++q ) {
                Params s;
                for( int k=0; k<6; ++k )
                    if( r.chance( 50 ) ) { v[k] = r.pick( choice[k] ); s[names[k]] = v[k]; }
                if( r.chance( 80 ) || q ) c->setParameters( s );
                else { const double d[6] = { 1e-6, 0.8, 1.3, 2, 0.1, 0 }; std::copy( d, d+6, v ); }
                Ev( "par" ).raw( "par", "{\"tol\":" + jd(v[0]) + ",\"ins\":" + jd(v[1]) + ",\"incMin\":" + jd(v[2]) + ",\"incMax\":" + jd(v[3])
                    + ",\"decMax\":" + jd(v[4]) + ",\"maxThr\":" + jd(v[5]) + "}" );
                for( int k=0; k<12; ++k ) {
                    static const double hs[] = { 1, 0.5, 0.25, 0.125, 0.1, 0.01, 2, 0.0625 };
                    double h = hs[r.below( 8 )];
                    int order = r.range( 1, 8 );
                    // the ratio tolerance/error is chosen so that the step ratio falls into each region
                    double ratio;
                    switch( r.below( 6 ) ) {
                    case 0: ratio = r.pick( std::vector<double>{ 1, 1 - 5e-6, 1 - 2e-5, 1 + 1e-6, 1 - 1e-7 } ); break;
                    case 1: ratio = v[2]/v[1]*r.pick( std::vector<double>{ 1.001, 0.999, 1.1, 0.9 } ); break;
                    case 2: ratio = v[3]/v[1]*r.pick( std::vector<double>{ 1.001, 0.999, 1.2, 0.8 } ); break;
                    case 3: ratio = v[4]/v[1]*r.pick( std::vector<double>{ 1.001, 0.999, 1.2, 0.8 } ); break;
                    case 4: ratio = v[5]/h/v[1]*r.pick( std::vector<double>{ 1.001, 0.999, 1.2, 0.8, 0.5 } ); break;
                    default: ratio = std::exp( r.uniform( -4, 3 ) );
                    }
                    if( !( ratio > 0 ) ) ratio = r.uniform( 0.1, 3 );
                    double err = v[0]/std::pow( ratio, order + 1 );
                    if( r.chance( 5 ) ) err = 0;
                    if( r.chance( 5 ) ) err = v[0];
                    auto res = c->controlStepSize( h, err, order );
                    Ev( "ctl" ).d( "h", h ).d( "err", err ).i( "order", order ).d( "newh", res.newStepSize ).b( "acc", res.acceptStep ).b( "chg", res.changeStepSize );
                }
            }
        }
    } );
}
