// Run-time selected refinements: same content as the compile-time ones; iterators are values.
#include <cstdlib>
#include <new>
#include <optional>

// count live allocations, so that iterators that lose their state are noticed
static long live = 0;
void *operator new ( std::size_t n ) { ++live; if( void *p = std::malloc( n ) ) return p; throw std::bad_alloc(); }
void operator delete ( void *p ) noexcept { if( p ) { --live; std::free( p ); } }
void operator delete ( void *p, std::size_t ) noexcept { if( p ) { --live; std::free( p ); } }

#include "refine.hh"

using namespace refine;

// --- equality of the two interfaces ---------------------------------------

static void compare ( mc::Explorer &ex, const Table &a, const Table &b )
{
  ex.expectf( a.nVertices == b.nVertices && a.nElements == b.nElements, "counts %d %d instead of %d %d", b.nVertices, b.nElements, a.nVertices, a.nElements );
  if( !ex.expect( a.vertices.size() == b.vertices.size() && a.elements.size() == b.elements.size(), "number of steps of the iterators" ) )
    return;
  for( std::size_t i = 0; i < a.vertices.size(); ++i )
    ex.expectf( a.vertices[ i ].index == b.vertices[ i ].index && a.vertices[ i ].x == b.vertices[ i ].x, "vertex %d differs", int( i ) );
  for( std::size_t i = 0; i < a.elements.size(); ++i )
    ex.expectf( a.elements[ i ].index == b.elements[ i ].index && a.elements[ i ].x == b.elements[ i ].x && a.elements[ i ].verts == b.elements[ i ].verts, "element %d differs", int( i ) );
  ex.step( long( a.vertices.size() + a.elements.size() ) );
  ex.outcome( mc::str( "%d %d", a.nVertices, a.nElements ) );
}

template< int dim, unsigned cell, unsigned sub, class ct >
static void compareAll ( mc::Explorer &ex, int top, const char *name )
{
  forAllIntervals( top, [ & ] ( int n, Dune::RefinementIntervals tag, const std::string &k ) {
      for( unsigned flip = 0; flip < 4; ++flip )
      {
        const unsigned c = cell ^ (flip & 1), s = sub ^ (flip >> 1);
        ex.run( mc::str( "both interfaces %s %u -> %u dimension %d, %s", name, c, s, dim, k.c_str() ), [ & ] {
            compare( ex, readStatic< cell, ct, sub, dim >( n, tag ), readVirtual< ct, dim >( c, s, n, tag ) );
            // the same object is returned for every spelling
            auto &r = Dune::buildRefinement< dim, ct >( Dune::GeometryType( cell, dim ), Dune::GeometryType( sub, dim ) );
            auto &q = Dune::buildRefinement< dim, ct >( Dune::GeometryType( c, dim ), Dune::GeometryType( s, dim ) );
            ex.expect( typeid( r ) == typeid( q ), "another refinement for the same shapes" );
          } );
      }
    } );
}

// --- which pairs are supported --------------------------------------------

template< int dim >
static void support ( mc::Explorer &ex )
{
  for( unsigned c = 0; c < (1u << dim); ++c )
    for( unsigned s = 0; s < (1u << dim); ++s )
      ex.run( mc::str( "support %u -> %u dimension %d", c, s, dim ), [ & ] {
          const unsigned cube = (1u << dim)-1;
          const bool toSimplex = model::sameShape( s, 0 ), toCube = model::sameShape( s, cube );
          bool want;
          if( model::sameShape( c, 0 ) )
            want = toSimplex;
          else if( model::sameShape( c, cube ) )
            want = toSimplex || toCube;
          else
            want = (dim == 3) && toSimplex;
          bool got = true;
          try
          {
            auto &r = Dune::buildRefinement< dim, double >( Dune::GeometryType( c, dim ), Dune::GeometryType( s, dim ) );
            ex.expect( r.nElements( Dune::refinementIntervals( 1 ) ) >= 1, "no elements" );
          }
          catch( const Dune::NotImplemented & )
          {
            got = false;
          }
          ex.expectf( got == want, "%s", got ? "supported" : "not supported" );
          ex.outcome( got ? "supported" : "NotImplemented" );
        } );
}

// --- iterators as values ---------------------------------------------------

struct Source { unsigned cell, sub; int n; };

// The world has two iterator slots; the model of a slot is (source, position).
template< int dim, int codim >
struct World
{
  typedef Dune::VirtualRefinement< dim, double > R;
  typedef typename R::template Codim< codim >::SubEntityIterator It;

  std::vector< Source > sources;
  std::vector< Table > tables;

  explicit World ( std::vector< Source > s ) : sources( std::move( s ) )
  {
    for( const Source &src : sources )
      tables.push_back( readVirtual< double, dim >( src.cell, src.sub, src.n, Dune::refinementIntervals( src.n ) ) );
  }

  int size ( int s ) const { return codim == 0 ? int( tables[ s ].elements.size() ) : int( tables[ s ].vertices.size() ); }

  It make ( int s, bool end ) const
  {
    R &r = Dune::buildRefinement< dim, double >( Dune::GeometryType( sources[ s ].cell, dim ), Dune::GeometryType( sources[ s ].sub, dim ) );
    const auto tag = Dune::refinementIntervals( sources[ s ].n );
    if constexpr( codim == 0 )
      return end ? r.eEnd( tag ) : r.eBegin( tag );
    else
      return end ? r.vEnd( tag ) : r.vBegin( tag );
  }

  struct Slot { int source, pos; };

  void check ( mc::Explorer &ex, const It &it, const Slot &m, const char *what ) const
  {
    if( m.pos >= size( m.source ) )
      return;
    const Table &t = tables[ m.source ];
    const int index = it.index();
    const Vec x = vec( it.coords() );
    if constexpr( codim == 0 )
    {
      const auto verts = it.vertexIndices();
      ex.expectf( index == t.elements[ m.pos ].index && x == t.elements[ m.pos ].x && std::vector< int >( verts.begin(), verts.end() ) == t.elements[ m.pos ].verts,
                  "%s: position %d of source %d shows index %d", what, m.pos, m.source, index );
    }
    else
      ex.expectf( index == t.vertices[ m.pos ].index && x == t.vertices[ m.pos ].x, "%s: position %d of source %d shows index %d", what, m.pos, m.source, index );
  }

  // operations
  int nOps () const { return 2*(2*int( sources.size() ) + 4); }
  std::string opName ( int op ) const
  {
    const int per = nOps()/2, slot = op/per, o = op%per, ns = int( sources.size() );
    const char n = "ab"[ slot ], m = "ba"[ slot ];
    if( o < ns ) return mc::str( "%c=begin%d", n, o );
    if( o < 2*ns ) return mc::str( "%c=end%d", n, o-ns );
    switch( o - 2*ns )
    {
    case 0: return mc::str( "++%c", n );
    case 1: return mc::str( "%c=%c", n, m );
    case 2: return mc::str( "%c=%c", n, n );
    default: return mc::str( "%c=copy(%c)", n, m );
    }
  }

  void run ( mc::Explorer &ex, const std::vector< int > &ops ) const
  {
    Slot m[ 2 ] = { { 0, 0 }, { 0, size( 0 ) } };
    const auto failures = ex.failures();
    const long before = live;
    perform( ex, ops, m );
    if( ex.failures() == failures )
      ex.expectf( live == before, "%ld allocations left behind", live - before );
    if( ex.failures() != failures )
    {
      std::string s;
      for( int o : ops )
        s += " " + opName( o );
      ex.fail( "in the history%s", s.c_str() );
    }
    ex.outcome( mc::str( "%d:%d %d:%d", m[ 0 ].source, m[ 0 ].pos, m[ 1 ].source, m[ 1 ].pos ) );
  }

  void perform ( mc::Explorer &ex, const std::vector< int > &ops, Slot *m ) const
  {
    It it[ 2 ] = { make( 0, false ), make( 0, true ) };
    const int per = nOps()/2, ns = int( sources.size() );
    for( int op : ops )
    {
      const int s = op/per, o = op%per;
      if( o < ns )
      {
        it[ s ] = make( o, false );
        m[ s ] = { o, 0 };
      }
      else if( o < 2*ns )
      {
        it[ s ] = make( o-ns, true );
        m[ s ] = { o-ns, size( o-ns ) };
      }
      else if( o == 2*ns )
      {
        if( m[ s ].pos >= size( m[ s ].source ) )
          return; // not allowed
        It &r = ++it[ s ];
        ex.expect( &r == &it[ s ], "increment returns another iterator" );
        ++m[ s ].pos;
      }
      else if( o == 2*ns+1 )
      {
        it[ s ] = it[ 1-s ];
        m[ s ] = m[ 1-s ];
      }
      else if( o == 2*ns+2 )
      {
        It &self = it[ s ];
        it[ s ] = self;
      }
      else
      {
        // the copy moves on alone
        It c( it[ 1-s ] );
        Slot mc = m[ 1-s ];
        if( mc.pos < size( mc.source ) )
        {
          ++c;
          ++mc.pos;
        }
        it[ s ] = c;
        m[ s ] = mc;
      }
      for( int k = 0; k < 2; ++k )
        check( ex, it[ k ], m[ k ], "iterator" );
      // equal means: the same position of the same refinement with the same number of intervals
      const Source &a = sources[ m[ 0 ].source ], &b = sources[ m[ 1 ].source ];
      const bool want = a.cell == b.cell && a.sub == b.sub && a.n == b.n && m[ 0 ].pos == m[ 1 ].pos;
      ex.expectf( (it[ 0 ] == it[ 1 ]) == want && (it[ 0 ] != it[ 1 ]) == !want && (it[ 1 ] == it[ 0 ]) == want, "iterators at positions %d and %d of sources %d and %d compare %s",
                  m[ 0 ].pos, m[ 1 ].pos, m[ 0 ].source, m[ 1 ].source, (it[ 0 ] == it[ 1 ]) ? "equal" : "different" );
      for( int k = 0; k < 2; ++k )
      {
        const bool end = (m[ k ].pos == size( m[ k ].source ));
        ex.expect( (it[ k ] == make( m[ k ].source, true )) == end, "comparison with the end" );
      }
      ex.step( 4 );
    }
  }

  void explore ( mc::Explorer &ex, const char *name, int depth ) const
  {
    // one case per prefix of length two
    const int n = nOps();
    for( int a = 0; a < n; ++a )
      for( int b = 0; b < n; ++b )
        ex.run( mc::str( "iterators %s depth %d: %s %s ...", name, depth, opName( a ).c_str(), opName( b ).c_str() ), [ & ] {
            std::vector< int > ops = { a, b };
            std::function< void () > rec = [ & ] {
                if( int( ops.size() ) == depth )
                  return run( ex, ops );
                for( int o = 0; o < n; ++o )
                {
                  ops.push_back( o );
                  rec();
                  ops.pop_back();
                }
              };
            rec();
          } );
  }
};

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  compareAll< 1, 0, 0, double >( ex, t ? 100 : 40, "double" );
  compareAll< 2, 0, 0, double >( ex, t ? 40 : 16, "double" );
  compareAll< 2, 3, 3, double >( ex, t ? 40 : 16, "double" );
  compareAll< 2, 3, 0, double >( ex, t ? 40 : 16, "double" );
  compareAll< 3, 0, 0, double >( ex, t ? 12 : 6, "double" );
  compareAll< 3, 7, 7, double >( ex, t ? 12 : 6, "double" );
  compareAll< 3, 7, 0, double >( ex, t ? 12 : 6, "double" );
  compareAll< 3, 5, 0, double >( ex, t ? 12 : 6, "double" );
  compareAll< 3, 3, 0, double >( ex, t ? 12 : 6, "double" );
  compareAll< 3, 5, 0, float >( ex, t ? 12 : 6, "float" );
  compareAll< 4, 0, 0, double >( ex, t ? 5 : 3, "double" );
  compareAll< 4, 15, 0, double >( ex, t ? 4 : 2, "double" );
  support< 1 >( ex );
  support< 2 >( ex );
  support< 3 >( ex );
  support< 4 >( ex );
  const int depth = t ? 5 : 4;
  World< 2, 0 >( { { 0, 0, 2 }, { 3, 0, 1 }, { 3, 3, 2 } } ).explore( ex, "elements 2d", depth );
  World< 2, 2 >( { { 0, 0, 1 }, { 3, 0, 1 }, { 3, 3, 1 } } ).explore( ex, "vertices 2d", depth );
  World< 3, 0 >( { { 5, 0, 1 }, { 5, 0, 2 } } ).explore( ex, "elements 3d", depth );
  World< 3, 3 >( { { 7, 0, 1 }, { 7, 0, 2 } } ).explore( ex, "vertices 3d", depth );
  World< 3, 0 >( { { 3, 0, 1 }, { 3, 0, 2 } } ).explore( ex, "elements of pyramids", t ? 4 : 3 );
  World< 2, 2 >( { { 3, 3, 1 }, { 3, 3, 2 } } ).explore( ex, "vertices of squares", t ? 4 : 3 );
  World< 1, 0 >( { { 0, 0, 2 }, { 0, 0, 3 } } ).explore( ex, "elements 1d", depth+(t ? 1 : 0) );
  World< 1, 1 >( { { 0, 0, 2 }, { 0, 0, 3 } } ).explore( ex, "vertices 1d", depth+(t ? 1 : 0) );
  return ex.finish();
}
