// Local and global type indices.
#include <dune/geometry/typeindex.hh>
#include "common.hh"

using Dune::GeometryType;
using Dune::LocalGeometryTypeIndex;
using Dune::GlobalGeometryTypeIndex;
namespace GTs = Dune::GeometryTypes;

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const int maxDim = ex.thorough() ? 20 : 16;
  for( int d = 0; d <= maxDim; ++d )
  {
    // model: the shapes of dimension d are the words modulo the first bit, plus none
    const std::size_t shapes = (d == 0 ? 1u : (1u << (d-1)));
    ex.run( mc::str( "local dim=%d", d ), [ & ] {
        ex.expectf( LocalGeometryTypeIndex::size( d ) == shapes + 1, "size(%d) = %zu", d, LocalGeometryTypeIndex::size( d ) );
        std::vector< int > used( shapes + 1, 0 );
        auto visit = [ & ] ( const GeometryType &t, bool first ) {
          const std::size_t i = LocalGeometryTypeIndex::index( t );
          if( !ex.expectf( i <= shapes, "index %zu of type %u out of range", i, t.id() ) )
            return;
          if( first )
            ++used[ i ];
          const GeometryType back = LocalGeometryTypeIndex::type( d, i );
          ex.expectf( back == t && int( back.dim() ) == d && back.isNone() == t.isNone(), "type(index) of type %u none=%d", t.id(), int( t.isNone() ) );
          ex.outcome( mc::str( "%d:%zu", d, i ) );
        };
        for( unsigned w = 0; w < (1u << d); ++w )
        {
          visit( GeometryType( w, d ), !(w & 1u) );
          if( w & 1u )
            ex.expect( LocalGeometryTypeIndex::index( GeometryType( w, d ) ) == LocalGeometryTypeIndex::index( GeometryType( w & ~1u, d ) ), "equal types have equal index" );
        }
        visit( GTs::none( d ), true );
        for( std::size_t i = 0; i <= shapes; ++i )
        {
          ex.expectf( used[ i ] == 1, "index %zu is used %d times", i, used[ i ] );
          const GeometryType t = LocalGeometryTypeIndex::type( d, i );
          ex.expectf( LocalGeometryTypeIndex::index( t ) == i, "index(type(%zu))", i );
        }
      } );
  }
  std::size_t total = 0;
  for( int d = 0; d <= maxDim; ++d )
  {
    const std::size_t shapes = (d == 0 ? 1u : (1u << (d-1))) + 1;
    ex.run( mc::str( "global dim=%d", d ), [ & ] {
        ex.expectf( GlobalGeometryTypeIndex::offset( d ) == total, "offset(%d) = %zu, model %zu", d, GlobalGeometryTypeIndex::offset( d ), total );
        ex.expectf( GlobalGeometryTypeIndex::size( d ) == total + shapes, "size(%d) = %zu", d, GlobalGeometryTypeIndex::size( d ) );
        std::vector< int > used( shapes, 0 );
        auto visit = [ & ] ( const GeometryType &t ) {
          const std::size_t i = GlobalGeometryTypeIndex::index( t );
          if( ex.expectf( i >= total && i < total + shapes, "global index %zu of type %u", i, t.id() ) )
            ++used[ i - total ];
          ex.outcome( mc::str( "g%zu", i ) );
        };
        for( unsigned w = 0; w < (1u << d); w += (d == 0 ? 1 : 2) )
          visit( GeometryType( w, d ) );
        visit( GTs::none( d ) );
        for( unsigned w = 1; w < (1u << d); w += 2 )
          ex.expect( GlobalGeometryTypeIndex::index( GeometryType( w, d ) ) == GlobalGeometryTypeIndex::index( GeometryType( w & ~1u, d ) ), "equal types have equal global index" );
        for( std::size_t i = 0; i < shapes; ++i )
          ex.expectf( used[ i ] == 1, "global index %zu is used %d times", total + i, used[ i ] );
      } );
    total += shapes;
  }
  return ex.finish();
}
