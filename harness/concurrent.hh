// Scenarios made of operations whose answers are compared with the answer of
// the same operation in a process of its own.
#ifndef VERIF_CONCURRENT_HH
#define VERIF_CONCURRENT_HH

#include "sched.hh"
#include "forked.hh"

namespace concurrent
{
  // what an operation saw; filled by the thread that runs it
  struct Answer
  {
    const void *address = nullptr;
    unsigned long long count = 0, content = 1469598103934665603ull;
    const char *thrown = "";

    void mix ( unsigned long long u )
    {
      content = (content ^ u) * 1099511628211ull;
      content ^= content >> 29;
      ++count;
    }
    void value ( double x )
    {
      unsigned long long u;
      if( x == 0 )
        x = 0;
      std::memcpy( &u, &x, sizeof( u ) );
      mix( u );
    }
    template< class V >
    void vector ( const V &v )
    {
      for( std::size_t i = 0; i < v.size(); ++i )
        value( double( v[ i ] ) );
    }
    template< class M >
    void matrix ( const M &m )
    {
      for( int i = 0; i < int( M::rows ); ++i )
        for( int j = 0; j < int( M::cols ); ++j )
          value( double( m[ i ][ j ] ) );
    }
    std::string text () const
    {
      return *thrown ? std::string( thrown ) : mc::str( "%llu values, content %016llx", count, content );
    }
  };

  struct Operation
  {
    std::string name;
    std::function< void ( Answer & ) > run;
  };

  // what the operation answers in a fresh process
  inline const std::string &alone ( const Operation &o )
  {
    static std::map< std::string, std::string > memo;
    auto it = memo.find( o.name );
    if( it == memo.end() )
    {
      auto res = forked::run( [ & ] { Answer a; o.run( a ); return a.text(); } );
      it = memo.emplace( o.name, res.ok ? res.text : "CRASH " + res.how ).first;
    }
    return it->second;
  }

  // one list of operations per thread; all schedules with at most `bound` preemptions.
  inline void scenario ( mc::Explorer &ex, const std::vector< std::vector< Operation > > &programs, int bound )
  {
    sched::Scenario s;
    s.name = mc::str( "bound%d", bound );
    for( const auto &p : programs )
    {
      s.name += " |";
      for( const Operation &o : p )
        s.name += " " + o.name;
    }
    typedef std::vector< std::vector< Answer > > Answers;
    Answers *answers = nullptr;
    s.prepare = [ & ] {
        answers = new Answers;
        std::vector< sched::Body > bodies;
        for( const auto &p : programs )
          answers->push_back( std::vector< Answer >( p.size() ) );
        for( std::size_t i = 0; i < programs.size(); ++i )
        {
          const Operation *o = programs[ i ].data();
          Answer *a = (*answers)[ i ].data();
          const int n = int( programs[ i ].size() );
          bodies.push_back( [ o, a, n ] { for( int k = 0; k < n; ++k ) o[ k ].run( a[ k ] ); } );
        }
        return bodies;
      };
    s.judge = [ & ] () -> std::string {
        std::map< std::string, const void * > address;
        for( std::size_t i = 0; i < programs.size(); ++i )
          for( std::size_t k = 0; k < programs[ i ].size(); ++k )
          {
            const Operation &o = programs[ i ][ k ];
            const Answer &a = (*answers)[ i ][ k ];
            if( a.text() != alone( o ) )
              return mc::str( "thread %d, %s: got %s, alone it is %s", int( i ), o.name.c_str(), a.text().c_str(), alone( o ).c_str() );
            auto it = address.emplace( o.name, a.address ).first;
            if( it->second != a.address )
              return mc::str( "%s is answered with two different objects", o.name.c_str() );
            // the same again when the threads have ended
            Answer later;
            o.run( later );
            if( later.address != a.address || later.text() != a.text() )
              return mc::str( "%s has another answer after the threads have ended", o.name.c_str() );
          }
        return "=ok";
      };
    bool ok = true;
    for( const auto &p : programs )
      for( const Operation &o : p )
        ok = ok && alone( o ).compare( 0, 5, "CRASH" ) != 0;
    if( !ok )
    {
      ex.run( s.name, [ & ] {
          for( const auto &p : programs )
            for( const Operation &o : p )
              ex.expectf( alone( o ).compare( 0, 5, "CRASH" ) != 0, "%s alone: %s", o.name.c_str(), alone( o ).c_str() );
        } );
      return;
    }
    sched::explore( ex, s, bound );
  }
}

#endif
