// Quadruple precision rules: number types that can be constructed from text get all tabulated digits.
#include <functional>
#define HAVE_QUADMATH 1
#include <dune/common/quadmath.hh>
#include "quad.hh"

using Dune::GeometryType;
using namespace quad;
typedef __float128 Q;

static Q betaQ ( int a, int b )
{
  Q r = Q( 1 ) / Q( a+b+1 );
  const int m = std::min( a, b );
  for( int i = 1; i <= m; ++i )
    r *= Q( i ) / Q( a+b-m+i );
  return r;
}

template< int dim >
static void one ( mc::Explorer &ex, const char *name, QT::Enum qt, int p, int alpha )
{
  const auto &rule = Dune::QuadratureRules< Dune::Float128, dim >::rule( Dune::GeometryTypes::cube( dim ), p, qt );
  ex.expectf( rule.order() >= p, "order() = %d", rule.order() );
  const int order = std::max( p, rule.order() );
  std::vector< std::vector< std::vector< Q > > > pw( dim, std::vector< std::vector< Q > >( order+1, std::vector< Q >( rule.size() ) ) );
  for( int k = 0; k < dim; ++k )
    for( std::size_t q = 0; q < rule.size(); ++q )
    {
      Q v = 1;
      for( int e = 0; e <= order; ++e, v *= Q( rule[ q ].position()[ k ] ) )
        pw[ k ][ e ][ q ] = v;
    }
  std::array< int, dim > a{};
  std::function< void ( int, int ) > rec = [ & ] ( int k, int left ) {
      if( k < dim )
      {
        for( a[ k ] = 0; a[ k ] <= left; ++a[ k ] )
          rec( k+1, left - a[ k ] );
        return;
      }
      Q s = 0, want = 1;
      for( std::size_t q = 0; q < rule.size(); ++q )
      {
        Q v = rule[ q ].weight();
        for( int j = 0; j < dim; ++j )
          v *= pw[ j ][ a[ j ] ][ q ];
        s += v;
      }
      for( int j = 0; j < dim; ++j )
        want *= Q( 1 << alpha ) * betaQ( a[ j ], alpha );
      const double err = double( s > want ? s - want : want - s );
      ex.step( 1 );
      ex.maxOf( "worst_quadruple_error", err );
      ex.expectf( err <= 1e-31, "degree %d: error %g", order-left, err );
    };
  rec( 0, order );
  ex.outcome( mc::str( "quadruple %d points", int( rule.size() ) ) );
}

void quadruple ( mc::Explorer &ex )
{
  Dune::QuadratureType::Enum all[] = { QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight };
  const char *names[] = { "GaussLegendre", "GaussJacobi_1_0", "GaussJacobi_2_0", "GaussLobatto", "GaussRadauLeft", "GaussRadauRight" };
  for( int i = 0; i < 6; ++i )
  {
    const int alpha = (i == 1 ? 1 : i == 2 ? 2 : 0);
    const int top = Dune::QuadratureRules< Dune::Float128, 1 >::maxOrder( Dune::GeometryTypes::line, all[ i ] );
    for( int p = 0; p <= top; ++p )
      ex.run( mc::str( "quadruple line %s order %d", names[ i ], p ), [ & ] { one< 1 >( ex, names[ i ], all[ i ], p, alpha ); } );
    if( alpha == 0 )
      for( int p = 0; p <= std::min( top, 16 ); ++p )
        ex.run( mc::str( "quadruple square %s order %d", names[ i ], p ), [ & ] { one< 2 >( ex, names[ i ], all[ i ], p, alpha ); } );
  }
}
