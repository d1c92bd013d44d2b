// common.h: event log, exact doubles, random numbers, and polynomial ODE systems for the drivers.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <algorithm>

inline FILE*& traceFile() { static FILE *f = nullptr; return f; }

inline std::string dstr( double x ) {
    if( std::isnan(x) ) return "nan";
    if( std::isinf(x) ) return x > 0? "inf": "-inf";
    if( x == 0 ) return "0";
    int e;
    double m = std::frexp( x, &e );         // |m| in [0.5,1)
    long long k = (long long)std::ldexp( m, 53 );
    e -= 53;
    while( (k & 1) == 0 ) { k >>= 1; ++e; }
    char buf[64];
    if( e >= 0 && e < 30 && std::fabs(x) < 1e15 ) snprintf( buf, sizeof buf, "%lld", k*(1ll << e) );
    else snprintf( buf, sizeof buf, "%lldp%d", k, e );
    return buf;
}

inline std::string jstr( const std::string& s ) {
    std::string r = "\"";
    for( unsigned char c : s ) {
        if( c == '"' || c == '\\' ) { r += '\\'; r += c; }
        else if( c == '\n' ) r += "\\n";
        else if( c == '\t' ) r += "\\t";
        else if( c == '\r' ) r += "\\r";
        else if( c < 32 ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string jd( double x ) { return "\"" + dstr(x) + "\""; }
template< class It > inline std::string jvec( It b, It e ) {
    std::string r = "[";
    for( It i=b; i!=e; ++i ) { if( i!=b ) r += ","; r += jd( *i ); }
    return r + "]";
}
template< class V > inline std::string jvecd( const V& v ) {
    std::string r = "[";
    for( size_t i=0; i<(size_t)v.size(); ++i ) { if( i ) r += ","; r += jd( v[i] ); }
    return r + "]";
}
template< class V > inline std::string jveci( const V& v ) {
    std::string r = "[";
    for( size_t i=0; i<(size_t)v.size(); ++i ) { if( i ) r += ","; r += std::to_string( (long long)v[i] ); }
    return r + "]";
}
inline std::string jvecs( const std::vector<std::string>& v ) {
    std::string r = "[";
    for( size_t i=0; i<v.size(); ++i ) { if( i ) r += ","; r += jstr( v[i] ); }
    return r + "]";
}

// One event of the trace, written when the object is destroyed.
class Ev {
    std::string m_s;
    bool m_done = false;
public:
    explicit Ev( const std::string& name ) { m_s = "{\"e\":" + jstr(name); }
    Ev( const Ev& ) = delete;
    ~Ev() { emit(); }
    void emit() {
        if( m_done ) return;
        m_done = true;
        m_s += "}\n";
        FILE *f = traceFile();
        fputs( m_s.c_str(), f );
        fflush( f );
    }
    Ev& raw( const char *k, const std::string& v ) { m_s += ",\"" + std::string(k) + "\":" + v; return *this; }
    Ev& s( const char *k, const std::string& v ) { return raw( k, jstr(v) ); }
    Ev& i( const char *k, long long v ) { return raw( k, std::to_string(v) ); }
    Ev& b( const char *k, bool v ) { return raw( k, v? "true": "false" ); }
    Ev& d( const char *k, double v ) { return raw( k, jd(v) ); }
    template< class V > Ev& v( const char *k, const V& x ) { return raw( k, jvecd(x) ); }
    template< class V > Ev& vi( const char *k, const V& x ) { return raw( k, jveci(x) ); }
};

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed ) : s( seed*0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); next(); }
    uint64_t next() {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z = ( z ^ (z >> 30) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ (z >> 27) ) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below( int n ) { return n <= 0? 0: (int)( next() % (uint64_t)n ); }
    int range( int a, int b ) { return a + below( b - a + 1 ); }        // inclusive
    bool chance( int pct ) { return below( 100 ) < pct; }
    double unit() { return ( next() >> 11 ) * ( 1.0/9007199254740992.0 ); }
    double uniform( double a, double b ) { return a + (b-a)*unit(); }
    // a multiple of 1/den in [-lim, lim]
    double dyadic( int lim, int den ) { return range( -lim*den, lim*den ) / (double)den; }
    template< class T > const T& pick( const std::vector<T>& v ) { return v[below( (int)v.size() )]; }
};

inline void scenario( const std::string& id, const std::string& what = "" ) { Ev( "scenario" ).s( "id", id ).s( "what", what ); }

// Polynomials in (t, x0, x1, ...)
struct Term { double c; std::vector<int> p; };
typedef std::vector<Term> Poly;
inline double evalPoly( const Poly& p, double t, const double *x ) {
    double s = 0;
    for( const auto& k : p ) {
        double v = k.c;
        for( size_t i=0; i<k.p.size(); ++i )
            for( int j=0; j<k.p[i]; ++j ) v *= i == 0? t: x[i-1];
        s += v;
    }
    return s;
}
inline std::string jpoly( const Poly& p ) {
    std::string r = "[";
    for( size_t i=0; i<p.size(); ++i ) {
        if( i ) r += ",";
        r += "{\"c\":" + jd( p[i].c ) + ",\"p\":" + jveci( p[i].p ) + "}";
    }
    return r + "]";
}
inline std::string jpolys( const std::vector<Poly>& p ) {
    std::string r = "[";
    for( size_t i=0; i<p.size(); ++i ) { if( i ) r += ","; r += jpoly( p[i] ); }
    return r + "]";
}

inline int runMain( int argc, char **argv, std::function<void(std::vector<std::string>)> f ) {
    if( argc < 2 ) return 3;
    traceFile() = fopen( argv[1], "w" );
    if( !traceFile() ) return 3;
    f( std::vector<std::string>( argv+2, argv+argc ) );
    Ev( "end" );
    fclose( traceFile() );
    return 0;
}
#endif
