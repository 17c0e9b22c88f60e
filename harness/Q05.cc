// Composite quadrature rules: the base rule on every part of the refined simplex.
#include <functional>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include "quad.hh"

using Dune::GeometryType;
using namespace quad;

template< int dim >
static void check ( mc::Explorer &ex, unsigned w, QT::Enum qt, int p, int n, Dune::RefinementIntervals tag )
{
  const GeometryType gt( w, dim );
  const auto &base = Dune::QuadratureRules< double, dim >::rule( gt, p, qt );
  const Dune::CompositeQuadratureRule< double, dim > rule( base, tag );
  long parts = 1;
  for( int i = 0; i < dim; ++i )
    parts *= n;
  ex.expectf( rule.type() == gt, "type() = %u", rule.type().id() );
  ex.expectf( rule.order() == base.order(), "order() = %d", rule.order() );
  if( !ex.expectf( rule.size() == parts*base.size(), "%d points", int( rule.size() ) ) )
    return;
  // exact on the whole simplex
  checkExact( ex, static_cast< const Dune::QuadratureRule< double, dim > & >( rule ), 0, std::min( rule.order(), p ), true, 1e-13L );

  // every part carries the base rule: match the points one to one with the images of the base points
  typedef Dune::StaticRefinement< 0, double, 0, dim > Refinement;
  std::vector< bool > used( rule.size(), false );
  std::multimap< long, std::size_t > byFirst; // quantised first coordinate
  const Real grain = 1e-9L;
  for( std::size_t i = 0; i < rule.size(); ++i )
    byFirst.emplace( std::lround( double( Real( rule[ i ].position()[ 0 ] ) / grain ) ), i );
  long seen = 0;
  for( auto it = Refinement::eBegin( tag ), end = Refinement::eEnd( tag ); it != end; ++it, ++seen )
  {
    const auto g = it.geometry();
    for( const auto &q : base )
    {
      Vec x( dim );
      for( int j = 0; j < dim; ++j )
      {
        const Real o = g.corner( 0 )[ j ];
        x[ j ] = o;
        for( int k = 0; k < dim; ++k )
          x[ j ] += (Real( g.corner( k+1 )[ j ] ) - o) * Real( q.position()[ k ] );
      }
      const Real weight = Real( q.weight() ) / parts;
      const long cell = std::lround( double( x[ 0 ] / grain ) );
      bool found = false;
      for( auto c = byFirst.lower_bound( cell-1 ); c != byFirst.end() && c->first <= cell+1 && !found; ++c )
      {
        const auto &r = rule[ c->second ];
        if( used[ c->second ] || std::fabs( Real( r.weight() ) - weight ) > 1e-14L )
          continue;
        bool same = true;
        for( int j = 0; j < dim; ++j )
          same = same && std::fabs( Real( r.position()[ j ] ) - x[ j ] ) < 1e-13L;
        if( same )
          found = used[ c->second ] = true;
      }
      ex.expect( found, "a part does not carry the base rule" );
    }
  }
  ex.expectf( seen == parts, "%ld parts", seen );
  ex.outcome( mc::str( "%d parts %d points", int( parts ), int( rule.size() ) ) );
}

template< int dim >
static void explore ( mc::Explorer &ex, int maxIntervals, int maxOrder )
{
  for( unsigned w : { 0u, 1u } )
    for( const Kind &kind : kinds() )
      for( int p = 0; p <= std::min( maxOrder, int( Dune::QuadratureRules< double, dim >::maxOrder( GeometryType( w, dim ), kind.qt ) ) ); ++p )
      {
        for( int n = 1; n <= maxIntervals; ++n )
          ex.run( mc::str( "composite %u/%d %s order %d, %d intervals", w, dim, kind.name, p, n ), [ & ] { check< dim >( ex, w, kind.qt, p, n, Dune::refinementIntervals( n ) ); } );
        for( int l = 0; (1 << l) <= maxIntervals; ++l )
          ex.run( mc::str( "composite %u/%d %s order %d, %d levels", w, dim, kind.name, p, l ), [ & ] { check< dim >( ex, w, kind.qt, p, 1 << l, Dune::refinementLevels( l ) ); } );
      }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< 1 >( ex, t ? 80 : 40, 61 );
  explore< 2 >( ex, t ? 24 : 16, t ? 40 : 24 );
  explore< 3 >( ex, t ? 8 : 6, t ? 16 : 12 );
  explore< 4 >( ex, t ? 4 : 3, t ? 8 : 6 );
  return ex.finish();
}
