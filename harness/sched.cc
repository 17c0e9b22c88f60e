// Runtime of sched.hh; compiled without thread instrumentation.
#include "sched.hh"

#include <atomic>
#include <algorithm>
#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C"
{
  void *__libc_malloc ( std::size_t );
  void __libc_free ( void * );
  void *__libc_calloc ( std::size_t, std::size_t );
  void *__libc_realloc ( void *, std::size_t );
  void *__libc_memalign ( std::size_t, std::size_t );
  void *__real_memcpy ( void *, const void *, std::size_t );
  void *__real_memmove ( void *, const void *, std::size_t );
  void *__real_memset ( void *, int, std::size_t );
}

namespace
{
  using sched::maxThreads;
  typedef std::uintptr_t Addr;

  // ------------------------------------------------------------ thread state

  enum Status { ready, blocked, finished };

  struct Thread
  {
    Status status = ready;
    Addr waitsFor = 0;
    std::uint32_t clock[ maxThreads ] = {};
    std::uint32_t steps = 0;
    sem_t baton;
    Addr stackLow = 0, stackHigh = 0;
    pthread_t handle;
    const sched::Body *body = nullptr;
    int sinceSwitch = 0;
  };

  Thread threads[ maxThreads ];
  int numThreads = 0;
  int current = -1;
  bool childMode = false;            // allocate from the arena
  bool active = false;               // threads are running
  sem_t allDone, release;

  thread_local int self = -1;        // index of this thread while controlled
  thread_local int inside = 0;       // executing the runtime itself

  struct Inside { Inside () { ++inside; } ~Inside () { --inside; } };

  bool controlled () { return self >= 0 && inside == 0 && active; }

  // ---------------------------------------------------------------- results

  std::string *problem;
  std::vector< sched::Choice > *choices;
  std::vector< std::uint64_t > *states;
  const std::vector< int > *prefix;
  std::uint64_t operations = 0, accesses = 0;
  int reportPipe = -1;

  void put ( int fd, const std::string &s )
  {
    std::size_t off = 0;
    while( off < s.size() )
    {
      const ssize_t n = write( fd, s.data()+off, s.size()-off );
      if( n <= 0 )
        break;
      off += n;
    }
  }

  [[noreturn]] void reportAndExit ( const std::string &text )
  {
    std::string s = "P" + *problem;
    std::replace( s.begin(), s.end(), '\n', ' ' );
    s += "\nC";
    for( const auto &c : *choices )
      s += mc::str( "%d:%d:%d ", c.options, c.chosen, int( c.preemptive ) );
    s += "\nS";
    for( auto h : *states )
      s += mc::str( "%llx ", (unsigned long long)h );
    s += mc::str( "\nN%llu %llu", (unsigned long long)operations, (unsigned long long)accesses );
    std::string t = text;
    std::replace( t.begin(), t.end(), '\n', ' ' );
    s += "\nT" + t + "\n.";
    put( reportPipe, s );
    _exit( 0 );
  }

  void complain ( const std::string &s )
  {
    if( problem->empty() )
      *problem = s;
  }

  std::string where ( const void *pc )
  {
    Dl_info i;
    if( pc && dladdr( pc, &i ) && i.dli_sname )
      return i.dli_sname;
    return "?";
  }

  // -------------------------------------------------------------- scheduling

  std::map< Addr, std::vector< std::uint32_t > > *syncs;

  void acquire ( Addr a )
  {
    auto it = syncs->find( a );
    if( it == syncs->end() )
      return;
    for( int i = 0; i < maxThreads; ++i )
      threads[ self ].clock[ i ] = std::max( threads[ self ].clock[ i ], it->second[ i ] );
  }

  void releaseTo ( Addr a, bool join = true )
  {
    auto &l = (*syncs)[ a ];
    l.resize( maxThreads, 0 );
    for( int i = 0; i < maxThreads; ++i )
      l[ i ] = join ? std::max( l[ i ], threads[ self ].clock[ i ] ) : threads[ self ].clock[ i ];
    ++threads[ self ].clock[ self ];
  }

  void noteState ()
  {
    std::uint64_t h = 1469598103934665603ull;
    for( int i = 0; i < numThreads; ++i )
    {
      h = (h ^ threads[ i ].steps) * 1099511628211ull;
      h = (h ^ unsigned( threads[ i ].status )) * 1099511628211ull;
    }
    states->push_back( h ^ (h >> 31) );
  }

  // choose who runs next; the caller is `self`
  void pick ()
  {
    Thread &me = threads[ self ];
    int option[ maxThreads ], n = 0;
    const bool mine = (me.status == ready);
    if( mine )
      option[ n++ ] = self;
    for( int i = 0; i < numThreads; ++i )
      if( i != self && threads[ i ].status == ready )
        option[ n++ ] = i;
    noteState();
    if( n == 0 )
    {
      bool all = true;
      for( int i = 0; i < numThreads; ++i )
        all = all && threads[ i ].status == finished;
      if( !all )
      {
        complain( "deadlock: no thread can continue" );
        reportAndExit( "" );
      }
      sem_post( &allDone );
      return;
    }
    int c = 0;
    bool forced = false;
    if( mine && n > 1 && ++me.sinceSwitch > 20000 )
    {
      // a busy wait: let somebody else run, this is not a choice
      option[ 0 ] = option[ 1 + (me.steps % (n-1)) ];
      forced = true;
    }
    else if( n > 1 )
    {
      const std::size_t k = choices->size();
      if( k < prefix->size() )
        c = (*prefix)[ k ];
      if( c < 0 || c >= n )
      {
        complain( "the recorded schedule cannot be followed: the code is not deterministic" );
        reportAndExit( "" );
      }
      choices->push_back( sched::Choice{ n, c, mine } );
      if( choices->size() > 200000 )
      {
        complain( "no end after 200000 scheduling decisions" );
        reportAndExit( "" );
      }
    }
    const int next = forced ? option[ 0 ] : option[ c ];
    if( next == self )
      return;
    me.sinceSwitch = 0;
    current = next;
    sem_post( &threads[ next ].baton );
    if( me.status != finished )
      while( sem_wait( &me.baton ) != 0 )
        ;
  }

  // a point at which another thread may be scheduled
  void point ()
  {
    ++operations;
    ++threads[ self ].steps;
    pick();
  }

  void block ( Addr a )
  {
    threads[ self ].status = blocked;
    threads[ self ].waitsFor = a;
    pick();
  }

  void wake ( Addr a, int limit = maxThreads )
  {
    for( int i = 0; i < numThreads && limit > 0; ++i )
      if( threads[ i ].status == blocked && threads[ i ].waitsFor == a )
      {
        threads[ i ].status = ready;
        threads[ i ].waitsFor = 0;
        --limit;
      }
  }

  // ---------------------------------------------------------------- accesses

  // what is known about the accesses to a word of four bytes, or to one byte of it
  // once it has been accessed in smaller portions
  struct Cell
  {
    std::uint16_t write[ maxThreads ], read[ maxThreads ], awrite[ maxThreads ], aread[ maxThreads ];
    std::uint32_t pc[ maxThreads ];
    std::uint8_t freed;
    Cell *bytes;
  };
  constexpr std::size_t pageBits = 12, pageWords = (std::size_t( 1 ) << pageBits) / 4;
  constexpr std::size_t tableSize = 1 << 14;
  struct Page { Addr tag; Cell *cells; };
  Page pages[ tableSize ];
  Page lastPage{ 0, nullptr };
  Addr imageBase = 0;

  constexpr std::size_t shadowSize = std::size_t( 1 ) << 32;
  char *shadow = nullptr;
  std::size_t shadowUsed = 0;

  Cell *newCells ( std::size_t n )
  {
    if( !shadow )
    {
      void *p = mmap( nullptr, shadowSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
      if( p == MAP_FAILED )
        _exit( 7 );
      shadow = static_cast< char * >( p );
    }
    Cell *c = reinterpret_cast< Cell * >( shadow+shadowUsed );
    shadowUsed += n*sizeof( Cell );
    if( shadowUsed > shadowSize )
      _exit( 7 );
    return c;
  }

  Cell *cellsOf ( Addr page )
  {
    if( lastPage.cells && lastPage.tag == page )
      return lastPage.cells;
    std::size_t i = (page * 0x9E3779B97F4A7C15ull) >> 50;
    while( pages[ i ].cells && pages[ i ].tag != page )
      i = (i+1) % tableSize;
    if( !pages[ i ].cells )
    {
      pages[ i ].tag = page;
      pages[ i ].cells = newCells( pageWords );
    }
    lastPage = pages[ i ];
    return lastPage.cells;
  }

  enum Kind { reading, writing, atomicReading, atomicWriting, freeing };

  std::string placeName ( Addr a )
  {
    Dl_info i;
    if( dladdr( (void *)a, &i ) && i.dli_sname )
      return i.dli_sname;
    return "memory";
  }

  void check ( Cell &c, Addr a, Kind kind, const void *pc )
  {
    const Thread &me = threads[ self ];
    const std::uint16_t m = std::uint16_t( me.clock[ self ] );
    if( c.freed )
    {
      complain( mc::str( "use of freed memory in %s", where( pc ).c_str() ) );
      reportAndExit( "" );
    }
    // already seen in the same stretch between two releases: whoever conflicts with it sees that
    if( (kind == reading && c.read[ self ] == m) || (kind == writing && c.write[ self ] == m) )
      return;
    for( int i = 0; i < numThreads; ++i )
    {
      if( i == self )
        continue;
      std::uint32_t other = c.write[ i ];                    // plain writes conflict with everything
      if( kind != atomicReading && kind != atomicWriting )
        other = std::max< std::uint32_t >( other, c.awrite[ i ] );
      if( kind == writing || kind == freeing )
        other = std::max< std::uint32_t >( other, std::max( c.read[ i ], c.aread[ i ] ) );
      if( kind == atomicWriting )
        other = std::max< std::uint32_t >( other, c.read[ i ] );
      if( other > me.clock[ i ] )
      {
        static const char *names[] = { "read", "write", "atomic read", "atomic write", "release" };
        complain( mc::str( "data race: unordered %s in %.300s and earlier access by thread %d in %.300s on %.100s",
                           names[ kind ], where( pc ).c_str(), i, where( (void *)(imageBase + c.pc[ i ]) ).c_str(), placeName( a ).c_str() ) );
        reportAndExit( "" );
      }
    }
    switch( kind )
    {
    case reading: c.read[ self ] = m; break;
    case writing: c.write[ self ] = m; break;
    case atomicReading: c.aread[ self ] = m; break;
    case atomicWriting: c.awrite[ self ] = m; break;
    case freeing: c.write[ self ] = m; c.freed = 1; break;
    }
    c.pc[ self ] = std::uint32_t( Addr( pc ) - imageBase );
  }

  void access ( Addr a, std::size_t n, Kind kind, const void *pc )
  {
    if( n == 0 )
      return;
    Thread &me = threads[ self ];
    if( a >= me.stackLow && a < me.stackHigh )
      return;
    Inside guard;
    ++accesses;
    if( me.clock[ self ] > 65000 )
    {
      complain( "too many synchronisation operations" );
      reportAndExit( "" );
    }
    for( Addr b = a; b < a+n; )
    {
      const Addr word = b & ~Addr( 3 );
      Cell &c = cellsOf( b >> pageBits )[ (b >> 2) & (pageWords-1) ];
      const Addr end = std::min( a+n, word+4 );
      if( !c.bytes && end-b == 4 )
        check( c, b, kind, pc );
      else
      {
        if( !c.bytes )
        {
          Cell *bytes = newCells( 4 );
          for( int i = 0; i < 4; ++i )
            bytes[ i ] = c;
          c.bytes = bytes;
        }
        for( Addr d = b; d < end; ++d )
          check( c.bytes[ d-word ], d, kind, pc );
      }
      b = end;
    }
  }

  // ------------------------------------------------------------------ memory

  constexpr std::size_t arenaSize = std::size_t( 1 ) << 30;
  char *arena = nullptr;
  std::atomic< std::size_t > arenaUsed{ 0 };

  bool inArena ( const void *p ) { return arena && p >= arena && p < arena+arenaSize; }

  void *arenaAlloc ( std::size_t n, std::size_t align )
  {
    if( align < 16 )
      align = 16;
    const std::size_t need = n + align + 16;
    const std::size_t at = arenaUsed.fetch_add( (need + 15) & ~std::size_t( 15 ) );
    if( at + need > arenaSize )
      return nullptr;
    Addr p = Addr( arena ) + at + 16;
    p = (p + align-1) & ~(align-1);
    *reinterpret_cast< std::size_t * >( p-16 ) = n;
    return reinterpret_cast< void * >( p );
  }

  std::size_t sizeOf ( void *p ) { return *reinterpret_cast< std::size_t * >( Addr( p )-16 ); }
}

extern "C"
{
  void *malloc ( std::size_t n ) { return childMode ? arenaAlloc( n, 16 ) : __libc_malloc( n ); }
  void *calloc ( std::size_t a, std::size_t b ) { return childMode ? arenaAlloc( a*b, 16 ) : __libc_calloc( a, b ); }
  void *memalign ( std::size_t al, std::size_t n ) { return childMode ? arenaAlloc( n, al ) : __libc_memalign( al, n ); }
  void *aligned_alloc ( std::size_t al, std::size_t n ) { return memalign( al, n ); }
  int posix_memalign ( void **p, std::size_t al, std::size_t n ) { *p = memalign( al, n ); return *p ? 0 : ENOMEM; }
  void free ( void *p )
  {
    if( !p )
      return;
    if( !inArena( p ) )
    {
      if( !childMode )
        __libc_free( p );
      return;
    }
    if( controlled() )
      access( Addr( p ), sizeOf( p ), freeing, __builtin_return_address( 0 ) );
  }
  void *realloc ( void *p, std::size_t n )
  {
    if( !childMode )
      return __libc_realloc( p, n );
    if( !p )
      return malloc( n );
    void *q = malloc( n );
    const std::size_t old = inArena( p ) ? sizeOf( p ) : n;
    if( q )
      __real_memcpy( q, p, std::min( old, n ) );
    return q;
  }

  // ---------------------------------------------------------- block functions

  void *__wrap_memcpy ( void *d, const void *s, std::size_t n )
  {
    if( controlled() )
    {
      access( Addr( s ), n, reading, __builtin_return_address( 0 ) );
      access( Addr( d ), n, writing, __builtin_return_address( 0 ) );
    }
    return __real_memcpy( d, s, n );
  }
  void *__wrap_memmove ( void *d, const void *s, std::size_t n )
  {
    if( controlled() )
    {
      access( Addr( s ), n, reading, __builtin_return_address( 0 ) );
      access( Addr( d ), n, writing, __builtin_return_address( 0 ) );
    }
    return __real_memmove( d, s, n );
  }
  void *__wrap_memset ( void *d, int c, std::size_t n )
  {
    if( controlled() )
      access( Addr( d ), n, writing, __builtin_return_address( 0 ) );
    return __real_memset( d, c, n );
  }

  // ---------------------------------------------------------- plain accesses

  void __tsan_init () {}
  void __tsan_func_entry ( void * ) {}
  void __tsan_func_exit () {}

#define PLAIN( n ) \
  void __tsan_read ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, reading, __builtin_return_address( 0 ) ); } \
  void __tsan_write ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, writing, __builtin_return_address( 0 ) ); } \
  void __tsan_unaligned_read ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, reading, __builtin_return_address( 0 ) ); } \
  void __tsan_unaligned_write ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, writing, __builtin_return_address( 0 ) ); } \
  void __tsan_volatile_read ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, reading, __builtin_return_address( 0 ) ); } \
  void __tsan_volatile_write ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, writing, __builtin_return_address( 0 ) ); } \
  void __tsan_unaligned_volatile_read ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, reading, __builtin_return_address( 0 ) ); } \
  void __tsan_unaligned_volatile_write ## n ( void *a ) { if( controlled() ) access( Addr( a ), n, writing, __builtin_return_address( 0 ) ); }
  PLAIN( 1 ) PLAIN( 2 ) PLAIN( 4 ) PLAIN( 8 ) PLAIN( 16 )
#undef PLAIN

  void __tsan_read_range ( void *a, std::size_t n ) { if( controlled() ) access( Addr( a ), n, reading, __builtin_return_address( 0 ) ); }
  void __tsan_write_range ( void *a, std::size_t n ) { if( controlled() ) access( Addr( a ), n, writing, __builtin_return_address( 0 ) ); }
  void __tsan_vptr_update ( void *a, void * ) { if( controlled() ) access( Addr( a ), 8, writing, __builtin_return_address( 0 ) ); }
  void __tsan_vptr_read ( void *a ) { if( controlled() ) access( Addr( a ), 8, reading, __builtin_return_address( 0 ) ); }
}

// ------------------------------------------------------------------- atomics

namespace
{
  std::set< Addr > *doneGuards;

  bool acquires ( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
  bool releases ( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

  template< class T >
  T atomicLoad ( const volatile T *a, int mo, const void *pc )
  {
    if( !controlled() )
      return *a;
    {
      Inside guard;
      // a finished initialisation never changes again, so nothing is to be scheduled around it
      if( doneGuards->count( Addr( a ) ) == 0 )
        point();
      if( acquires( mo ) )
        acquire( Addr( a ) );
    }
    access( Addr( a ), sizeof( T ), atomicReading, pc );
    return *a;
  }

  template< class T >
  void atomicStore ( volatile T *a, T v, int mo, const void *pc )
  {
    if( !controlled() )
    {
      *a = v;
      return;
    }
    {
      Inside guard;
      point();
    }
    access( Addr( a ), sizeof( T ), atomicWriting, pc );
    Inside guard;
    if( releases( mo ) )
      releaseTo( Addr( a ), false );
    else
      syncs->erase( Addr( a ) );
    *a = v;
  }

  template< class T, class F >
  T atomicUpdate ( volatile T *a, int mo, const void *pc, F f )
  {
    if( !controlled() )
    {
      const T old = *a;
      *a = f( old );
      return old;
    }
    {
      Inside guard;
      point();
      if( acquires( mo ) )
        acquire( Addr( a ) );
    }
    access( Addr( a ), sizeof( T ), atomicWriting, pc );
    Inside guard;
    if( releases( mo ) )
      releaseTo( Addr( a ), true );
    const T old = *a;
    *a = f( old );
    return old;
  }

  template< class T >
  bool atomicCompare ( volatile T *a, T *expected, T desired, int mo, int fmo, const void *pc )
  {
    if( !controlled() )
    {
      if( *a == *expected )
      {
        *a = desired;
        return true;
      }
      *expected = *a;
      return false;
    }
    {
      Inside guard;
      point();
    }
    const bool ok = (*a == *expected);
    {
      Inside guard;
      if( acquires( ok ? mo : fmo ) )
        acquire( Addr( a ) );
    }
    access( Addr( a ), sizeof( T ), ok ? atomicWriting : atomicReading, pc );
    Inside guard;
    if( ok )
    {
      if( releases( mo ) )
        releaseTo( Addr( a ), true );
      *a = desired;
    }
    else
      *expected = *a;
    return ok;
  }
}

extern "C"
{
  typedef unsigned __int128 Wide;
#define ATOMIC( bits, T ) \
  T __tsan_atomic ## bits ## _load ( const volatile T *a, int mo ) { return atomicLoad< T >( a, mo, __builtin_return_address( 0 ) ); } \
  void __tsan_atomic ## bits ## _store ( volatile T *a, T v, int mo ) { atomicStore< T >( a, v, mo, __builtin_return_address( 0 ) ); } \
  T __tsan_atomic ## bits ## _exchange ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T ) { return v; } ); } \
  T __tsan_atomic ## bits ## _fetch_add ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( o+v ); } ); } \
  T __tsan_atomic ## bits ## _fetch_sub ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( o-v ); } ); } \
  T __tsan_atomic ## bits ## _fetch_and ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( o&v ); } ); } \
  T __tsan_atomic ## bits ## _fetch_or ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( o|v ); } ); } \
  T __tsan_atomic ## bits ## _fetch_xor ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( o^v ); } ); } \
  T __tsan_atomic ## bits ## _fetch_nand ( volatile T *a, T v, int mo ) { return atomicUpdate< T >( a, mo, __builtin_return_address( 0 ), [ v ] ( T o ) { return T( ~(o&v) ); } ); } \
  bool __tsan_atomic ## bits ## _compare_exchange_strong ( volatile T *a, T *e, T v, int mo, int f ) { return atomicCompare< T >( a, e, v, mo, f, __builtin_return_address( 0 ) ); } \
  bool __tsan_atomic ## bits ## _compare_exchange_weak ( volatile T *a, T *e, T v, int mo, int f ) { return atomicCompare< T >( a, e, v, mo, f, __builtin_return_address( 0 ) ); } \
  T __tsan_atomic ## bits ## _compare_exchange_val ( volatile T *a, T e, T v, int mo, int f ) { atomicCompare< T >( a, &e, v, mo, f, __builtin_return_address( 0 ) ); return e; }
  ATOMIC( 8, std::uint8_t ) ATOMIC( 16, std::uint16_t ) ATOMIC( 32, std::uint32_t ) ATOMIC( 64, std::uint64_t )
  ATOMIC( 128, Wide )
#undef ATOMIC

  void __tsan_atomic_signal_fence ( int ) {}
  void __tsan_atomic_thread_fence ( int )
  {
    if( !controlled() )
      return;
    Inside guard;
    static int fence;
    point();
    acquire( Addr( &fence ) );
    releaseTo( Addr( &fence ) );
  }

  // ---------------------------------------------- function-local static guards

  int __cxa_guard_acquire ( char *g )
  {
    if( !controlled() )
    {
      if( g[ 0 ] )
        return 0;
      g[ 1 ] = 1;
      return 1;
    }
    Inside guard;
    if( g[ 0 ] == 0 )
      point();
    for( ;; )
    {
      if( g[ 0 ] )
      {
        acquire( Addr( g ) );
        return 0;
      }
      if( g[ 1 ] == 0 )
        break;
      if( g[ 2 ] == self )
      {
        complain( "a function-local static is initialised recursively" );
        reportAndExit( "" );
      }
      block( Addr( g ) );
    }
    acquire( Addr( g ) );
    g[ 1 ] = 1;
    g[ 2 ] = char( self );
    return 1;
  }

  void __cxa_guard_release ( char *g )
  {
    if( !controlled() )
    {
      g[ 0 ] = 1;
      g[ 1 ] = 0;
      return;
    }
    Inside guard;
    point();
    g[ 0 ] = 1;
    g[ 1 ] = 0;
    doneGuards->insert( Addr( g ) );
    releaseTo( Addr( g ) );
    wake( Addr( g ) );
  }

  void __cxa_guard_abort ( char *g )
  {
    g[ 1 ] = 0;
    if( !controlled() )
      return;
    Inside guard;
    point();
    releaseTo( Addr( g ) );
    wake( Addr( g ) );
  }

  // ---------------------------------------------------------------- call_once

  int pthread_once ( pthread_once_t *c, void (*f) () )
  {
    volatile int *state = reinterpret_cast< volatile int * >( c );
    if( !controlled() )
    {
      if( *state == 2 )
        return 0;
      *state = 1;
      try { f(); }
      catch( ... ) { *state = 0; throw; }
      *state = 2;
      return 0;
    }
    static std::map< Addr, int > *owner = nullptr;
    {
      Inside guard;
      if( !owner )
        owner = new std::map< Addr, int >;
      if( *state != 2 )
        point();
      for( ;; )
      {
        if( *state == 2 )
        {
          acquire( Addr( c ) );
          return 0;
        }
        if( *state == 0 )
          break;
        if( owner->count( Addr( c ) ) && (*owner)[ Addr( c ) ] == self )
        {
          complain( "call_once enters itself" );
          reportAndExit( "" );
        }
        block( Addr( c ) );
      }
      acquire( Addr( c ) );
      *state = 1;
      (*owner)[ Addr( c ) ] = self;
    }
    bool thrown = true;
    struct Finish
    {
      pthread_once_t *c; volatile int *state; bool &thrown;
      ~Finish ()
      {
        Inside guard;
        point();
        *state = thrown ? 0 : 2;
        releaseTo( Addr( c ) );
        wake( Addr( c ) );
      }
    } finish{ c, state, thrown };
    f();
    thrown = false;
    return 0;
  }
}

// -------------------------------------------------------------------- mutexes

namespace
{
  struct Lock { int owner = -1; int depth = 0; int readers = 0; int held[ maxThreads ] = {}; };
  std::map< Addr, Lock > *locks;
  int recursiveKind ( pthread_mutex_t *m ) { return m->__data.__kind & 3; }

  int mutexLock ( pthread_mutex_t *m, bool wait )
  {
    Inside guard;
    point();
    for( ;; )
    {
      Lock &l = (*locks)[ Addr( m ) ];
      if( l.owner < 0 )
      {
        l.owner = self;
        l.depth = 1;
        acquire( Addr( m ) );
        return 0;
      }
      if( l.owner == self )
      {
        if( recursiveKind( m ) == PTHREAD_MUTEX_RECURSIVE )
        {
          ++l.depth;
          return 0;
        }
        if( !wait )
          return EBUSY;
        complain( "a thread locks a mutex that it holds" );
        reportAndExit( "" );
      }
      if( !wait )
        return EBUSY;
      block( Addr( m ) );
    }
  }

  void mutexUnlock ( pthread_mutex_t *m, bool schedule = true )
  {
    Inside guard;
    if( schedule )
      point();
    Lock &l = (*locks)[ Addr( m ) ];
    if( l.owner != self )
    {
      complain( "a thread unlocks a mutex that it does not hold" );
      reportAndExit( "" );
    }
    if( --l.depth > 0 )
      return;
    l.owner = -1;
    releaseTo( Addr( m ) );
    wake( Addr( m ) );
  }

  int rwLock ( pthread_rwlock_t *m, bool write, bool wait )
  {
    Inside guard;
    point();
    for( ;; )
    {
      Lock &l = (*locks)[ Addr( m ) ];
      if( l.owner < 0 && (!write || l.readers == 0) )
      {
        if( write )
          l.owner = self;
        else
        {
          ++l.readers;
          ++l.held[ self ];
        }
        acquire( Addr( m ) );
        return 0;
      }
      if( l.owner == self || (write && l.held[ self ] > 0) )
      {
        if( !wait )
          return EBUSY;
        complain( "a thread waits for a lock that it holds" );
        reportAndExit( "" );
      }
      if( !wait )
        return EBUSY;
      block( Addr( m ) );
    }
  }
}

extern "C"
{
  int pthread_mutex_lock ( pthread_mutex_t *m ) { return controlled() ? mutexLock( m, true ) : 0; }
  int pthread_mutex_trylock ( pthread_mutex_t *m ) { return controlled() ? mutexLock( m, false ) : 0; }
  int pthread_mutex_unlock ( pthread_mutex_t *m )
  {
    if( controlled() )
      mutexUnlock( m );
    return 0;
  }
  int pthread_rwlock_rdlock ( pthread_rwlock_t *m ) { return controlled() ? rwLock( m, false, true ) : 0; }
  int pthread_rwlock_wrlock ( pthread_rwlock_t *m ) { return controlled() ? rwLock( m, true, true ) : 0; }
  int pthread_rwlock_tryrdlock ( pthread_rwlock_t *m ) { return controlled() ? rwLock( m, false, false ) : 0; }
  int pthread_rwlock_trywrlock ( pthread_rwlock_t *m ) { return controlled() ? rwLock( m, true, false ) : 0; }
  int pthread_rwlock_unlock ( pthread_rwlock_t *m )
  {
    if( !controlled() )
      return 0;
    Inside guard;
    point();
    Lock &l = (*locks)[ Addr( m ) ];
    if( l.owner == self )
      l.owner = -1;
    else if( l.held[ self ] > 0 )
    {
      --l.held[ self ];
      --l.readers;
    }
    else
    {
      complain( "a thread unlocks a lock that it does not hold" );
      reportAndExit( "" );
    }
    releaseTo( Addr( m ) );
    wake( Addr( m ) );
    return 0;
  }
  int pthread_cond_wait ( pthread_cond_t *c, pthread_mutex_t *m )
  {
    if( !controlled() )
      return 0;
    mutexUnlock( m );
    {
      Inside guard;
      block( Addr( c ) );
      acquire( Addr( c ) );
    }
    return mutexLock( m, true );
  }
  int pthread_cond_signal ( pthread_cond_t *c )
  {
    if( controlled() )
    {
      Inside guard;
      point();
      releaseTo( Addr( c ) );
      wake( Addr( c ), 1 );
    }
    return 0;
  }
  int pthread_cond_broadcast ( pthread_cond_t *c )
  {
    if( controlled() )
    {
      Inside guard;
      point();
      releaseTo( Addr( c ) );
      wake( Addr( c ) );
    }
    return 0;
  }
  int sched_yield ()
  {
    if( controlled() )
    {
      Inside guard;
      threads[ self ].sinceSwitch += 1000;
      point();
    }
    return 0;
  }
}

// ----------------------------------------------------------------- execution

namespace
{
  void *threadMain ( void *p )
  {
    const int id = int( Addr( p ) );
    Thread &t = threads[ id ];
    {
      pthread_attr_t a;
      void *low;
      std::size_t size;
      pthread_getattr_np( pthread_self(), &a );
      pthread_attr_getstack( &a, &low, &size );
      pthread_attr_destroy( &a );
      t.stackLow = Addr( low );
      t.stackHigh = Addr( low )+size;
    }
    sem_post( &allDone );
    while( sem_wait( &t.baton ) != 0 )
      ;
    self = id;
    try { (*t.body)(); }
    catch( const std::exception &e )
    {
      Inside guard;
      complain( mc::str( "thread %d ends with an exception: %s", id, e.what() ) );
    }
    catch( ... )
    {
      Inside guard;
      complain( mc::str( "thread %d ends with an exception", id ) );
    }
    {
      Inside guard;
      t.status = finished;
      ++t.steps;
      pick();
    }
    self = -1;
    while( sem_wait( &release ) != 0 )
      ;
    return nullptr;
  }

  int pickFirst ()
  {
    // the first decision: nobody is running yet
    int c = 0;
    if( numThreads > 1 )
    {
      if( !prefix->empty() )
        c = (*prefix)[ 0 ];
      choices->push_back( sched::Choice{ numThreads, c, false } );
    }
    return c;
  }

  [[noreturn]] void child ( const sched::Scenario &s, const std::vector< int > &p, int fd )
  {
    reportPipe = fd;
    problem = new std::string;
    choices = new std::vector< sched::Choice >;
    states = new std::vector< std::uint64_t >;
    syncs = new std::map< Addr, std::vector< std::uint32_t > >;
    doneGuards = new std::set< Addr >;
    locks = new std::map< Addr, Lock >;
    prefix = &p;
    Dl_info info;
    if( dladdr( (void *)&sched::execute, &info ) )
      imageBase = Addr( info.dli_fbase );
    arena = static_cast< char * >( mmap( nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if( arena == MAP_FAILED )
      _exit( 7 );
    childMode = true;
    const std::vector< sched::Body > bodies = s.prepare();
    numThreads = int( bodies.size() );
    sem_init( &allDone, 0, 0 );
    sem_init( &release, 0, 0 );
    for( int i = 0; i < numThreads; ++i )
    {
      threads[ i ].body = &bodies[ i ];
      for( int j = 0; j < maxThreads; ++j )
        threads[ i ].clock[ j ] = (i == j ? 1 : 0);
      sem_init( &threads[ i ].baton, 0, 0 );
      pthread_attr_t a;
      pthread_attr_init( &a );
      pthread_attr_setstacksize( &a, 1 << 20 );
      if( pthread_create( &threads[ i ].handle, &a, threadMain, (void *)Addr( i ) ) != 0 )
        _exit( 7 );
    }
    for( int i = 0; i < numThreads; ++i )
      while( sem_wait( &allDone ) != 0 )
        ;
    active = true;
    current = pickFirst();
    sem_post( &threads[ current ].baton );
    while( sem_wait( &allDone ) != 0 )
      ;
    active = false;
    for( int i = 0; i < numThreads; ++i )
      sem_post( &release );
    for( int i = 0; i < numThreads; ++i )
      pthread_join( threads[ i ].handle, nullptr );
    std::string text = s.judge();
    if( !text.empty() && text[ 0 ] != '=' )
      complain( text );
    reportAndExit( text );
  }
}

namespace sched
{
  Run execute ( const Scenario &s, const std::vector< int > &p )
  {
    Run r;
    int fd[ 2 ];
    if( pipe( fd ) != 0 )
      std::abort();
    std::fflush( stdout );
    std::fflush( stderr );
    const pid_t pid = fork();
    if( pid < 0 )
      std::abort();
    if( pid == 0 )
    {
      close( fd[ 0 ] );
      alarm( 40 );
      try { child( s, p, fd[ 1 ] ); }
      catch( const std::exception &e ) { complain( std::string( "exception: " ) + e.what() ); reportAndExit( "" ); }
    }
    close( fd[ 1 ] );
    std::string t;
    char buf[ 8192 ];
    for( ;; )
    {
      const ssize_t n = read( fd[ 0 ], buf, sizeof buf );
      if( n <= 0 )
        break;
      t.append( buf, n );
    }
    close( fd[ 0 ] );
    int status = 0;
    waitpid( pid, &status, 0 );
    std::vector< std::string > lines;
    std::istringstream in( t );
    for( std::string l; std::getline( in, l ); )
      lines.push_back( l );
    if( WIFSIGNALED( status ) || lines.size() != 6 || lines[ 5 ] != "." )
    {
      r.problem = WIFSIGNALED( status ) ? mc::str( "killed by signal %d", WTERMSIG( status ) ) : mc::str( "ended with status %d", WEXITSTATUS( status ) );
      return r;
    }
    r.problem = lines[ 0 ].substr( 1 );
    std::istringstream c( lines[ 1 ].substr( 1 ) );
    for( std::string w; c >> w; )
    {
      Choice x;
      int pre;
      std::sscanf( w.c_str(), "%d:%d:%d", &x.options, &x.chosen, &pre );
      x.preemptive = pre;
      r.choices.push_back( x );
    }
    std::istringstream st( lines[ 2 ].substr( 1 ) );
    for( std::string w; st >> w; )
      r.states.push_back( std::strtoull( w.c_str(), nullptr, 16 ) );
    unsigned long long a = 0, b = 0;
    std::sscanf( lines[ 3 ].c_str(), "N%llu %llu", &a, &b );
    r.operations = a;
    r.accesses = b;
    r.text = lines[ 4 ].substr( 1 );
    return r;
  }

  void explore ( mc::Explorer &ex, const Scenario &s, int bound )
  {
    ex.run( s.name, [ & ] {
        const std::uint64_t base = mc::Explorer::hash( s.name );
        std::vector< std::vector< int > > todo{ {} };
        int bad = 0;
        std::uint64_t schedules = 0;
        while( !todo.empty() && bad < 3 )
        {
          const std::vector< int > p = std::move( todo.back() );
          todo.pop_back();
          const Run r = execute( s, p );
          ++schedules;
          ex.end();
          ex.alive();
          ex.step( r.operations );
          ex.count( "schedules" );
          ex.count( "checked accesses", r.accesses );
          std::string order;
          for( const Choice &c : r.choices )
            order += char( '0'+c.chosen );
          while( !order.empty() && order.back() == '0' )
            order.pop_back();
          for( auto h : r.states )
            ex.state( base ^ h );
          ex.outcome( s.name + "|" + r.text );
          if( !r.problem.empty() )
          {
            ++bad;
            ex.fail( "schedule [%s]: %s", order.c_str(), r.problem.c_str() );
          }
          int used = 0;
          for( std::size_t i = 0; i < r.choices.size(); ++i )
          {
            const Choice &c = r.choices[ i ];
            if( i >= p.size() )
              for( int alt = 0; alt < c.options; ++alt )
                if( alt != c.chosen && used + (c.preemptive && alt != 0 ? 1 : 0) <= bound )
                {
                  std::vector< int > q;
                  for( std::size_t j = 0; j < i; ++j )
                    q.push_back( r.choices[ j ].chosen );
                  q.push_back( alt );
                  todo.push_back( std::move( q ) );
                }
            used += (c.preemptive && c.chosen != 0) ? 1 : 0;
          }
        }
        ex.maxOf( "schedules of one scenario", double( schedules ) );
      } );
  }
}
