// json.h: minimal JSON reader for scenarios generated by TLC.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include "common.h"
struct Json {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } k = Null;
    bool b = false; double n = 0; std::string s; std::vector<Json> a; std::map<std::string, Json> o;
    const Json& operator[]( const char *key ) const {
        auto i = o.find( key );
        if( i == o.end() ) throw std::runtime_error( std::string( "scenario: no field " ) + key );
        return i->second;
    }
    const Json& operator[]( size_t i ) const { return a.at( i ); }
    bool has( const char *key ) const { return o.count( key ) > 0; }
    size_t size() const { return a.size(); }
    int i() const { return (int)d(); }
    // a number, or a string "n", "n/d" or "mpE"
    double d() const {
        if( k == Num ) return n;
        auto p = s.find( 'p' ), q = s.find( '/' );
        if( p != std::string::npos ) return std::ldexp( std::stod( s.substr( 0, p ) ), std::stoi( s.substr( p+1 ) ) );
        if( q != std::string::npos ) return std::stod( s.substr( 0, q ) )/std::stod( s.substr( q+1 ) );
        return std::stod( s );
    }
    std::vector<double> vd() const { std::vector<double> r; for( auto& x : a ) r.push_back( x.d() ); return r; }
    std::vector<int> vi() const { std::vector<int> r; for( auto& x : a ) r.push_back( x.i() ); return r; }
    static Json parse( const std::string& t ) { const char *p = t.c_str(); return read( p ); }
private:
    static void ws( const char*& p ) { while( *p && strchr( " \t\r\n,:", *p ) ) ++p; }
    static Json read( const char*& p ) {
        Json r;
        ws( p );
        if( *p == '{' ) {
            r.k = Obj; ++p;
            for( ws( p ); *p && *p != '}'; ws( p ) ) { Json key = read( p ); r.o[key.s] = read( p ); }
            ++p;
        }
        else if( *p == '[' ) {
            r.k = Arr; ++p;
            for( ws( p ); *p && *p != ']'; ws( p ) ) r.a.push_back( read( p ) );
            ++p;
        }
        else if( *p == '"' ) {
            r.k = Str; ++p;
            while( *p && *p != '"' ) { if( *p == '\\' ) ++p; r.s += *p++; }
            ++p;
        }
        else if( *p == 't' || *p == 'f' ) { r.k = Bool; r.b = *p == 't'; p += r.b? 4: 5; }
        else if( *p == 'n' ) p += 4;
        else { char *q; r.k = Num; r.n = strtod( p, &q ); if( q == p ) throw std::runtime_error( "bad scenario" ); p = q; }
        return r;
    }
};
inline std::vector<Json> readScenarios( const std::string& file ) {
    std::ifstream f( file );
    if( !f ) throw std::runtime_error( "cannot open " + file );
    std::vector<Json> r;
    for( std::string ln; std::getline( f, ln ); ) if( !ln.empty() ) r.push_back( Json::parse( ln ) );
    return r;
}
#endif
