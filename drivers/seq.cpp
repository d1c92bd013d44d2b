// seq.cpp: the step-number sequences of the extrapolator called directly.
// arguments: seed number
// link: regs_ode regs_alg regs_common
#include "odesys.h"
int main( int argc, char **argv ) {
    Registrations reg;
    return runMain( argc, argv, []( std::vector<std::string> a ) {
        uint64_t seed = std::stoull( a[0] );
        int n = std::stoi( a[1] );
        for( int i=0; i<n; ++i ) {
            Rng r( seed*7127 + i );
            scenario( "seq-" + std::to_string( i ) );
            for( std::string name : { "harmonic", "romberg", "bulirsch" } ) {
                auto s = Factory< ExtrapolatorStepSequence >::newInstance( name );
                Ev( "new" ).s( "name", name );
                int runs = r.range( 1, 5 );
                for( int q=0; q<runs; ++q ) {
                    if( q || r.chance( 50 ) ) { Ev( "reset" ); s->reset(); }
                    int m = q == 0? 24: r.range( 0, 24 );
                    for( int k=0; k<m; ++k ) Ev( "next" ).i( "n", s->next() );
                }
            }
        }
    } );
}
