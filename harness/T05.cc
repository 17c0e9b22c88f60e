// Types, type indices, factories and vertex orders that several threads use at the same time.
#include <memory>
#include <sstream>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/topologyfactory.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
#include "concurrent.hh"

using Dune::GeometryType;
namespace GTs = Dune::GeometryTypes;
using concurrent::Answer;
using concurrent::Operation;

static void tell ( const GeometryType &t, Answer &a )
{
  a.mix( t.id() );
  a.mix( t.dim() );
  a.mix( t.isNone() | t.isSimplex() << 1 | t.isCube() << 2 | t.isPyramid() << 3 | t.isPrism() << 4 );
}

// all types of a dimension: predicates, comparisons, extensions
static Operation types ( int dim )
{
  return { mc::str( "types:%d", dim ), [ = ] ( Answer &a ) {
      for( unsigned w = 0; w < (1u << dim); ++w )
      {
        const GeometryType t( w, dim );
        tell( t, a );
        tell( GTs::conicalExtension( t ), a );
        tell( GTs::prismaticExtension( t ), a );
        for( unsigned v = 0; v < (1u << dim); ++v )
          a.mix( (t == GeometryType( v, dim )) | (t < GeometryType( v, dim )) << 1 );
      }
      tell( GTs::simplex( dim ), a );
      tell( GTs::cube( dim ), a );
      tell( GTs::none( dim ), a );
    } };
}

static Operation indices ( int dim )
{
  return { mc::str( "indices:%d", dim ), [ = ] ( Answer &a ) {
      a.mix( Dune::LocalGeometryTypeIndex::size( dim ) );
      a.mix( Dune::GlobalGeometryTypeIndex::size( dim ) );
      a.mix( Dune::GlobalGeometryTypeIndex::offset( dim ) );
      for( std::size_t i = 0; i < Dune::LocalGeometryTypeIndex::size( dim ); ++i )
      {
        const GeometryType t = Dune::LocalGeometryTypeIndex::type( dim, i );
        tell( t, a );
        a.mix( Dune::LocalGeometryTypeIndex::index( t ) );
        a.mix( Dune::GlobalGeometryTypeIndex::index( t ) );
      }
    } };
}

template< int dim >
static Operation dispatch ()
{
  return { mc::str( "dispatch:%d", dim ), [] ( Answer &a ) {
      for( unsigned w = 0; w < (1u << dim); ++w )
        a.mix( Dune::Impl::toGeometryTypeIdConstant< dim >( GeometryType( w, dim ), [] ( auto id ) {
            const GeometryType t = decltype( id )::value;
            return t.id();
          } ) );
    } };
}

struct Made { unsigned id; long key; };

template< int dim >
struct Traits
{
  struct Factory
  {
    template< GeometryType::Id id >
    static const Made *createObject ( const long &key ) { return new Made{ GeometryType( id ).id(), key }; }
  };
  static const unsigned int dimension = dim;
  typedef long Key;
  typedef const Made Object;
};

template< int dim >
static Operation factory ( long key )
{
  return { mc::str( "factory:%d:%ld", dim, key ), [ = ] ( Answer &a ) {
      typedef Dune::TopologyFactory< Traits< dim > > F;
      for( unsigned w = 0; w < (1u << dim); ++w )
      {
        const Made *m = F::create( GeometryType( w, dim ), key );
        a.mix( m->id );
        a.mix( m->key );
        F::release( m );
      }
      const Made *m = F::template create< GTs::cube( dim ).toId() >( key );
      a.mix( m->id );
      F::release( m );
    } };
}

static Operation counted ( unsigned dim )
{
  return { mc::str( "vertices:%u", dim ), [ = ] ( Answer &a ) {
      for( unsigned n : { 1u, 2u, 3u, 4u, 5u, 6u, 8u } )
      {
        if( (dim < 2) || (dim == 2 && (n == 3 || n == 4)) || (dim == 3 && n >= 4) )
          tell( Dune::geometryTypeFromVertexCount( dim, n ), a );
      }
    } };
}

static Operation printed ( GeometryType t )
{
  return { mc::str( "print:%s%u/%d", t.isNone() ? "none" : "", t.id(), int( t.dim() ) ), [ = ] ( Answer &a ) {
      std::ostringstream s;
      s << t;
      for( char c : s.str() )
        a.mix( c );
    } };
}

template< int dim, class Order >
static void read ( const Order &o, Answer &a )
{
  tell( o.type(), a );
  const auto re = Dune::referenceElement< double, dim >( o.type() );
  for( int c = 0; c <= dim; ++c )
    for( int i = 0; i < re.size( c ); ++i )
    {
      for( auto it = o.begin( c, i ); it != o.end( c, i ); ++it )
        a.mix( *it );
      std::vector< typename Order::Index > r;
      o.getReduced( c, i, r );
      for( auto x : r )
        a.mix( x );
    }
}

template< int dim >
static void orders ( std::vector< Operation > &alphabet, unsigned w )
{
  typedef Dune::GeneralVertexOrder< dim > Order;
  static const int n = 1 << dim;
  auto make = [ = ] ( int step ) {
      std::vector< int > ids;
      const int size = (w == 0 ? dim+1 : n);
      for( int i = 0; i < size; ++i )
        ids.push_back( (i*step + 1) % 11 );
      return Order( GeometryType( w, dim ), ids.begin(), ids.end() );
    };
  // one order, made before the threads start, that all of them read
  static std::vector< std::unique_ptr< const Order > > keep;
  keep.push_back( std::make_unique< const Order >( make( 3 ) ) );
  const Order *p = keep.back().get();
  alphabet.push_back( { mc::str( "sharedorder:%u/%d", w, dim ), [ = ] ( Answer &a ) { a.address = p; read< dim >( *p, a ); } } );
  for( int step : { 3, 7 } )
    alphabet.push_back( { mc::str( "ownorder:%u/%d:%d", w, dim, step ), [ = ] ( Answer &a ) { read< dim >( make( step ), a ); } } );
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  std::vector< Operation > alphabet = {
    types( 0 ), types( 2 ), types( 3 ), indices( 0 ), indices( 2 ), indices( 3 ),
    dispatch< 1 >(), dispatch< 2 >(), dispatch< 3 >(), factory< 1 >( 1 ), factory< 2 >( 1 ), factory< 2 >( 2 ), factory< 3 >( 1 ),
    counted( 2 ), counted( 3 ), printed( GTs::triangle ), printed( GTs::cube( 4 ) ), printed( GeometryType( 10, 4 ) ), printed( GTs::none( 2 ) ) };
  orders< 1 >( alphabet, 1 );
  orders< 2 >( alphabet, 0 );
  orders< 2 >( alphabet, 3 );
  orders< 3 >( alphabet, 7 );
  const int n = int( alphabet.size() );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ j ] } }, t ? 3 : 2 );
  for( int i = 0; i < n; ++i )
  {
    concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ i ] } }, t ? 2 : 1 );
    for( int j = 0; j < n; ++j )
      if( j != i )
        concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ], alphabet[ j ] } }, 1 );
  }
  return ex.finish();
}
