// Exhaustive-exploration support for the sequential harnesses.
//
// A harness enumerates *cases*.  A case has a unique textual key; executing a
// case performs *transitions* (calls into dune-geometry whose result is
// compared with the reference model).  Cases are distributed over shards, can
// be replayed one at a time, and the key of the running case is published in a
// shared file so that the driver can attribute crashes and hangs.
#ifndef VERIF_MC_HH
#define VERIF_MC_HH

#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc
{
  struct Violation { std::string key, message; };

  class Explorer
  {
  public:
    Explorer ( int argc, char **argv )
    {
      for( int i = 1; i < argc; ++i )
      {
        std::string a = argv[ i ];
        auto next = [ & ] () -> std::string { if( i+1 >= argc ) usage(); return argv[ ++i ]; };
        if( a == "--shard" )
        {
          std::string s = next();
          if( std::sscanf( s.c_str(), "%d/%d", &shard_, &shards_ ) != 2 )
            usage();
        }
        else if( a == "--only" )
          only_.insert( next() );
        else if( a == "--cur" )
          openCurrent( next() );
        else if( a == "--out" )
          out_ = next();
        else if( a == "--thorough" )
          thorough_ = true;
        else if( a == "--param" )
        {
          std::string s = next();
          const auto p = s.find( '=' );
          param_[ s.substr( 0, p ) ] = (p == std::string::npos ? "" : s.substr( p+1 ));
        }
        else
          usage();
      }
    }

    bool thorough () const { return thorough_; }
    bool replaying () const { return !only_.empty(); }
    int shard () const { return shard_; }
    std::string param ( const std::string &k, const std::string &d = "" ) const
    {
      auto it = param_.find( k );
      return it == param_.end() ? d : it->second;
    }

    // Begin a case. Returns false if the case belongs to another shard or is
    // filtered out by a replay request.
    bool begin ( const std::string &key )
    {
      const std::uint64_t n = caseCounter_++;
      if( replaying() )
      {
        if( only_.count( key ) == 0 )
          return false;
      }
      else if( int( n % std::uint64_t( shards_ ) ) != shard_ || enough() )
        return false;
      key_ = key;
      failedHere_ = 0;
      publish();
      ++cases_;
      state( hash( key ) );
      if( samples_.size() < 3 || (cases_ & (cases_-1)) == 0 )
      {
        if( samples_.size() < 12 )
          samples_.push_back( key );
      }
      return true;
    }

    // Cases that fail may take long: what has been found is reported without looking for more.
    bool enough () const
    {
      return violations_.size() >= 200 || (!violations_.empty() && std::chrono::steady_clock::now() - failedAt_ > std::chrono::seconds( 60 ));
    }

    template< class F >
    void run ( const std::string &key, F f )
    {
      if( !begin( key ) )
        return;
      try { f(); }
      catch( const std::exception &e ) { fail( "unexpected exception: %s", e.what() ); }
      end();
    }

    // A complete case has been validated against the implementation.
    void end () { ++traces_; }

    // Record a distinct state of the explored system (canonical hash).
    bool state ( std::uint64_t h ) { return states_.insert( h ).second; }
    bool state ( const std::string &s ) { return state( hash( s ) ); }

    // Tell the driver that a long case is making progress.
    void alive () { publish(); }

    // Count executed operations.
    void step ( std::uint64_t n = 1 ) { transitions_ += n; }

    // Record a distinct observable outcome (vacuity guard).
    void outcome ( std::uint64_t h ) { if( outcomes_.size() < 2000000 ) outcomes_.insert( h ); }
    void outcome ( const std::string &s ) { outcome( hash( s ) ); }
    void outcomeValue ( double d )
    {
      // quantised, so that the statistics do not depend on rounding
      const double q = (d == 0 || !std::isfinite( d )) ? d : std::nearbyint( d * 1e6 );
      std::uint64_t u;
      std::memcpy( &u, &q, sizeof( u ) );
      outcome( std::uint64_t( u * 0x9E3779B97F4A7C15ull ) );
    }

    void count ( const std::string &name, std::uint64_t n = 1 ) { counters_[ name ] += n; }
    void maxOf ( const std::string &name, double v )
    {
      auto it = maxima_.find( name );
      if( it == maxima_.end() ) { maxima_[ name ] = v; return; }
      if( v > it->second ) it->second = v;
    }

    void fail ( const char *fmt, ... )
    {
      char buf[ 2048 ];
      va_list ap;
      va_start( ap, fmt );
      std::vsnprintf( buf, sizeof( buf ), fmt, ap );
      va_end( ap );
      ++violationCount_;
      if( violations_.empty() )
        failedAt_ = std::chrono::steady_clock::now();
      if( ++failedHere_ <= 3 && violations_.size() < 200 )
        violations_.push_back( { key_, buf } );
    }

    std::uint64_t failures () const { return violationCount_; }

    bool expect ( bool ok, const char *what )
    {
      step();
      if( !ok )
        fail( "%s", what );
      return ok;
    }

    template< class... A >
    bool expectf ( bool ok, const char *fmt, A... a )
    {
      step();
      if( !ok )
        fail( fmt, a... );
      return ok;
    }

    // compare a computed value with the model's value
    bool near ( long double got, long double want, long double tol, const char *what )
    {
      step();
      outcomeValue( double( got ) );
      const long double err = std::fabs( got - want );
      if( std::isfinite( double( err ) ) && tol > 0 )
        maxOf( "worst_error_over_tolerance", double( err/tol ) );
      if( !(err <= tol) )
      {
        fail( "%s: got %.18Lg, model %.18Lg, |difference| %.3Lg > %.3Lg", what, got, want, err, tol );
        return false;
      }
      return true;
    }

    static std::uint64_t hash ( const std::string &s )
    {
      std::uint64_t h = 1469598103934665603ull;
      for( unsigned char c : s )
      {
        h ^= c;
        h *= 1099511628211ull;
      }
      return h ^ (h >> 29);
    }

    int finish ()
    {
      std::FILE *f = out_.empty() ? stdout : std::fopen( out_.c_str(), "w" );
      if( !f )
        return 3;
      std::fprintf( f, "{\"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"outcomes\": %llu, \"violation_count\": %llu,\n",
                    (unsigned long long)cases_, (unsigned long long)states_.size(), (unsigned long long)transitions_,
                    (unsigned long long)traces_, (unsigned long long)outcomes_.size(), (unsigned long long)violationCount_ );
      std::fprintf( f, "\"samples\": [" );
      for( std::size_t i = 0; i < samples_.size(); ++i )
        std::fprintf( f, "%s%s", i ? ", " : "", quote( samples_[ i ] ).c_str() );
      std::fprintf( f, "],\n\"counters\": {" );
      bool first = true;
      for( auto &c : counters_ )
      {
        std::fprintf( f, "%s%s: %llu", first ? "" : ", ", quote( c.first ).c_str(), (unsigned long long)c.second );
        first = false;
      }
      std::fprintf( f, "},\n\"maxima\": {" );
      first = true;
      for( auto &c : maxima_ )
      {
        std::fprintf( f, "%s%s: %.6g", first ? "" : ", ", quote( c.first ).c_str(), std::isfinite( c.second ) ? c.second : 1e300 );
        first = false;
      }
      std::fprintf( f, "},\n\"violations\": [" );
      for( std::size_t i = 0; i < violations_.size(); ++i )
        std::fprintf( f, "%s\n {\"key\": %s, \"message\": %s}", i ? "," : "", quote( violations_[ i ].key ).c_str(), quote( violations_[ i ].message ).c_str() );
      std::fprintf( f, "]}\n" );
      if( f != stdout )
        std::fclose( f );
      if( cur_ )
        std::strcpy( cur_ + 8, "<finished>" );
      return violationCount_ > 0 ? 1 : 0;
    }

  private:
    [[noreturn]] static void usage ()
    {
      std::fprintf( stderr, "usage: harness [--shard i/n] [--only KEY] [--cur FILE] [--out FILE] [--thorough] [--param k=v]\n" );
      std::exit( 3 );
    }

    static std::string quote ( const std::string &s )
    {
      std::string r = "\"";
      for( unsigned char c : s )
      {
        if( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
        else if( c < 32 || c > 126 ) { char b[ 8 ]; std::snprintf( b, sizeof( b ), "\\u%04x", c ); r += b; }
        else r += char( c );
      }
      return r + "\"";
    }

    void openCurrent ( const std::string &file )
    {
      const int fd = ::open( file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
      if( fd < 0 || ::ftruncate( fd, 4096 ) != 0 )
        std::exit( 3 );
      cur_ = static_cast< char * >( ::mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
      ::close( fd );
      if( cur_ == MAP_FAILED )
        std::exit( 3 );
    }

    void publish ()
    {
      if( !cur_ )
        return;
      ++*reinterpret_cast< std::uint64_t * >( cur_ );
      std::strncpy( cur_ + 8, key_.c_str(), 4000 );
    }

    int shard_ = 0, shards_ = 1;
    bool thorough_ = false;
    std::set< std::string > only_;
    std::map< std::string, std::string > param_;
    std::string out_, key_;
    char *cur_ = nullptr;
    std::uint64_t caseCounter_ = 0, cases_ = 0, transitions_ = 0, traces_ = 0, violationCount_ = 0, failedHere_ = 0;
    std::unordered_set< std::uint64_t > states_, outcomes_;
    std::vector< std::string > samples_;
    std::map< std::string, std::uint64_t > counters_;
    std::map< std::string, double > maxima_;
    std::vector< Violation > violations_;
    std::chrono::steady_clock::time_point failedAt_;
  };

  inline std::string str ( const char *fmt, ... )
  {
    char buf[ 1024 ];
    va_list ap;
    va_start( ap, fmt );
    std::vsnprintf( buf, sizeof( buf ), fmt, ap );
    va_end( ap );
    return buf;
  }
} // namespace mc

#endif
