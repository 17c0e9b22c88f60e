// Concurrent uses of refinements.
#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include "concurrent.hh"

using Dune::GeometryType;
using concurrent::Answer;
using concurrent::Operation;

template< class ct, int dim >
static Operation virtualRefinement ( const char *ctName, unsigned cell, unsigned sub, int n )
{
  return { mc::str( "virtual:%s%u-%u/%d:%d", ctName, cell, sub, dim, n ), [ = ] ( Answer &a ) {
      auto &r = Dune::buildRefinement< dim, ct >( GeometryType( cell, dim ), GeometryType( sub, dim ) );
      a.address = &r;
      const Dune::RefinementIntervals tag( n );
      a.mix( r.nVertices( tag ) );
      a.mix( r.nElements( tag ) );
      const auto vEnd = r.vEnd( tag );
      for( auto it = r.vBegin( tag ); it != vEnd; ++it )
      {
        a.mix( it.index() );
        a.vector( it.coords() );
      }
      const auto eEnd = r.eEnd( tag );
      for( auto it = r.eBegin( tag ); it != eEnd; ++it )
      {
        a.mix( it.index() );
        a.vector( it.coords() );
        for( auto v : it.vertexIndices() )
          a.mix( v );
      }
    } };
}

template< class ct, unsigned cell, unsigned sub, int dim >
static Operation staticRefinement ( const char *ctName, int n )
{
  return { mc::str( "static:%s%u-%u/%d:%d", ctName, cell, sub, dim, n ), [ = ] ( Answer &a ) {
      typedef Dune::StaticRefinement< cell, ct, sub, dim > R;
      const Dune::RefinementIntervals tag( n );
      a.mix( R::nVertices( tag ) );
      a.mix( R::nElements( tag ) );
      const auto vEnd = R::vEnd( tag );
      for( auto it = R::vBegin( tag ); it != vEnd; ++it )
      {
        a.mix( it.index() );
        a.vector( it.coords() );
        a.vector( it.geometry().corner( 0 ) );
      }
      const auto eEnd = R::eEnd( tag );
      for( auto it = R::eBegin( tag ); it != eEnd; ++it )
      {
        a.mix( it.index() );
        a.vector( it.coords() );
        for( auto v : it.vertexIndices() )
          a.mix( v );
        const auto g = it.geometry();
        a.value( g.volume() );
        a.vector( g.center() );
      }
    } };
}

template< class ct, int dim >
static Operation composite ( const char *ctName, int n, int p )
{
  return { mc::str( "composite:%s%d:%d:%d", ctName, dim, n, p ), [ = ] ( Answer &a ) {
      const auto &base = Dune::QuadratureRules< ct, dim >::rule( Dune::GeometryTypes::simplex( dim ), p );
      const Dune::CompositeQuadratureRule< ct, dim > rule( base, Dune::refinementIntervals( n ) );
      a.mix( rule.order() );
      for( const auto &q : rule )
      {
        a.vector( q.position() );
        a.value( q.weight() );
      }
    } };
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  std::vector< Operation > alphabet = {
    virtualRefinement< double, 1 >( "", 1, 1, 2 ), virtualRefinement< double, 1 >( "", 0, 0, 2 ),
    virtualRefinement< double, 2 >( "", 0, 0, 2 ), virtualRefinement< double, 2 >( "", 3, 3, 2 ), virtualRefinement< double, 2 >( "", 3, 0, 2 ),
    virtualRefinement< double, 2 >( "", 3, 0, 3 ), virtualRefinement< double, 3 >( "", 0, 0, 2 ), virtualRefinement< double, 3 >( "", 7, 7, 1 ),
    virtualRefinement< double, 3 >( "", 3, 0, 2 ), virtualRefinement< double, 3 >( "", 5, 0, 2 ), virtualRefinement< float, 2 >( "f", 0, 0, 2 ),
    staticRefinement< double, 0, 0, 2 >( "", 2 ), staticRefinement< double, 3, 3, 2 >( "", 2 ), staticRefinement< double, 3, 0, 2 >( "", 2 ),
    staticRefinement< double, 3, 0, 3 >( "", 1 ), staticRefinement< double, 5, 0, 3 >( "", 1 ), staticRefinement< double, 7, 7, 3 >( "", 1 ),
    composite< double, 1 >( "", 2, 2 ), composite< double, 2 >( "", 2, 2 ) };
  if( t )
  {
    alphabet.push_back( composite< double, 3 >( "", 2, 1 ) );
    alphabet.push_back( virtualRefinement< double, 3 >( "", 7, 0, 1 ) );
    alphabet.push_back( virtualRefinement< double, 3 >( "", 5, 0, 3 ) );
    alphabet.push_back( staticRefinement< double, 7, 0, 3 >( "", 2 ) );
    alphabet.push_back( staticRefinement< float, 0, 0, 3 >( "f", 3 ) );
  }
  const int n = int( alphabet.size() );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ j ] } }, t ? 3 : 2 );
  for( int i = 0; i < n; ++i )
  {
    concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ i ] } }, t ? 2 : 1 );
    for( int j = 0; j < n; ++j )
      if( j != i )
        concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ], alphabet[ j ] } }, 1 );
  }
  return ex.finish();
}
