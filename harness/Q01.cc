// Exactness, placement and labelling of the quadrature rules.
#include <functional>
#include <dune/geometry/referenceelements.hh>
#include "quad.hh"

using Dune::GeometryType;
using namespace quad;

static std::string mode;
void quadruple ( mc::Explorer &ex );

template< class ct, int dim >
void placement ( mc::Explorer &ex, const Dune::QuadratureRule< ct, dim > &rule, unsigned w, int p, QT::Enum qt )
{
  const Real eps = std::numeric_limits< ct >::epsilon();
  ex.expectf( int( rule.type().dim() ) == dim && !rule.type().isNone() && model::sameShape( rule.type().id(), w ), "type() = %u", rule.type().id() );
  ex.expectf( rule.order() >= p, "order() = %d", rule.order() );
  ex.expect( rule.size() > 0, "empty rule" );
  Real sum = 0;
  long ends[ 2 ] = { 0, 0 };
  for( std::size_t q = 0; q < rule.size(); ++q )
  {
    const auto &pt = rule[ q ];
    sum += Real( pt.weight() );
    // inside the closed cell up to rounding
    Real s = 1;
    bool in = true;
    for( int k = dim; k >= 1; --k )
    {
      const Real z = pt.position()[ k-1 ];
      in &= (z >= -8*eps && z <= s + 8*eps);
      const bool prism = (k == 1) || ((w >> (k-1)) & 1u);
      if( !prism )
        s -= z;
    }
    ex.expectf( in, "point %d lies outside", int( q ) );
    ex.expectf( std::isfinite( double( pt.weight() ) ), "weight %d is %g", int( q ), double( pt.weight() ) );
    // the structured binding and the accessors agree
    const auto [ position, weight ] = pt;
    ex.expect( position == pt.position() && weight == pt.weight(), "structured binding" );
    if( dim == 1 )
    {
      ex.expectf( pt.weight() > ct( 0 ), "weight %d is not positive", int( q ) );
      ends[ 0 ] += std::fabs( Real( pt.position()[ 0 ] ) ) <= 4*eps;
      ends[ 1 ] += std::fabs( Real( pt.position()[ 0 ] ) - 1 ) <= 4*eps;
    }
  }
  if( dim == 1 )
  {
    const bool left = (qt == QT::GaussLobatto || qt == QT::GaussRadauLeft), right = (qt == QT::GaussLobatto || qt == QT::GaussRadauRight);
    ex.expectf( ends[ 0 ] == (left ? 1 : 0), "left end point occurs %d times", int( ends[ 0 ] ) );
    ex.expectf( ends[ 1 ] == (right ? 1 : 0), "right end point occurs %d times", int( ends[ 1 ] ) );
    const int n = int( rule.size() );
    // these families are optimal: the number of points is the least one for the order
    const int exact = 2*n - 1 - (left ? 1 : 0) - (right ? 1 : 0);
    ex.expectf( exact >= p, "%d points cannot have order %d", n, p );
    ex.expectf( exact - 2 < p || n == 1 + (left && right), "%d points are too many for order %d", n, p );
    ex.expectf( rule.order() <= exact, "%d points cannot have order() = %d", n, rule.order() );
    for( std::size_t a = 0; a < rule.size(); ++a )
      for( std::size_t b = 0; b < a; ++b )
        ex.expect( std::fabs( Real( rule[ a ].position()[ 0 ] - rule[ b ].position()[ 0 ] ) ) > 64*eps, "repeated point" );
  }
  // in prismatic directions that nothing shrinks, the families with end points have points at these ends only
  if( dim > 1 && (qt == QT::GaussLobatto || qt == QT::GaussRadauLeft || qt == QT::GaussRadauRight) )
    for( int k = dim; k >= 2 && ((w >> (k-1)) & 1u); --k )
    {
      const int top = (k == 2 ? 2 : 1);
      for( int j = 0; j < top; ++j )
      {
        long at[ 2 ] = { 0, 0 };
        for( const auto &pt : rule )
          for( int e = 0; e < 2; ++e )
            at[ e ] += std::fabs( Real( pt.position()[ k-1-j ] ) - e ) <= 4*eps;
        ex.expectf( (at[ 0 ] > 0) == (qt != QT::GaussRadauRight), "%d points at the lower end of coordinate %d", int( at[ 0 ] ), k-1-j );
        ex.expectf( (at[ 1 ] > 0) == (qt != QT::GaussRadauLeft), "%d points at the upper end of coordinate %d", int( at[ 1 ] ), k-1-j );
      }
    }
  // cones: on the base
  if( dim > 1 && !((w >> (dim-1)) & 1u) && (qt == QT::GaussLobatto || qt == QT::GaussRadauLeft || qt == QT::GaussRadauRight) )
  {
    long at = 0;
    for( const auto &pt : rule )
      at += std::fabs( Real( pt.position()[ dim-1 ] ) ) <= 4*eps;
    ex.expectf( (at > 0) == (qt != QT::GaussRadauRight), "%d points on the base", int( at ) );
  }
  ex.outcomeValue( double( sum ) );
}

// tolerance of the comparison: all moments are at most the volume; numbers in tables and run-time
// rules have double precision
template< class ct >
Real tolerance ( std::size_t points, QT::Enum qt, int dim, int p )
{
  const bool runtime = (qt == QT::GaussJacobi_n_0) && (dim >= 4 || p >= 61);
  const Real eps = std::max< Real >( std::numeric_limits< ct >::epsilon(), Real( 2.3e-16L ) );
  return eps * (runtime ? 4000 : 64) * dim;
}

template< class ct, int dim >
void explore ( mc::Explorer &ex, const char *ctName, int fullUpTo, int maxTop )
{
  typedef Dune::QuadratureRules< ct, dim > Rules;
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const GeometryType gt( w, dim );
    for( const Kind &kind : kinds() )
    {
      const int top = std::min< int >( maxTop, Rules::maxOrder( gt, kind.qt ) );
      for( int p = 0; p <= top; ++p )
        ex.run( mc::str( "%s %s %u/%d %s order %d", mode.c_str(), ctName, w, dim, kind.name, p ), [ & ] {
            const auto &rule = Rules::rule( gt, p, kind.qt );
            if( mode == "placement" )
              placement( ex, rule, w, p, kind.qt );
            else
            {
              // exact up to the order the rule claims
              const int order = std::min( rule.order(), 4*p + 8 );
              ex.expectf( order >= p, "order() = %d", rule.order() );
              checkExact( ex, rule, w, std::max( order, p ), p <= fullUpTo, tolerance< ct >( rule.size(), kind.qt, dim, p ) );
            }
          } );
    }
  }
}

// every function on a vertex is integrated by its value there
template< class ct >
void exploreVertex ( mc::Explorer &ex, const char *ctName )
{
  for( const std::vector< Kind > &some : { kinds(), weightedKinds() } )
    for( const Kind &kind : some )
      for( int p = 0; p <= 64; ++p )
        ex.run( mc::str( "%s %s vertex %s order %d", mode.c_str(), ctName, kind.name, p ), [ & ] {
            const auto &rule = Dune::QuadratureRules< ct, 0 >::rule( Dune::GeometryTypes::vertex, p, kind.qt );
            ex.expectf( rule.order() >= p, "order() = %d", rule.order() );
            ex.expectf( rule.type() == Dune::GeometryTypes::vertex, "type() = %u/%u", rule.type().id(), rule.type().dim() );
            ex.expectf( rule.size() == 1 && rule[ 0 ].weight() == ct( 1 ), "%d points", int( rule.size() ) );
            ex.outcomeValue( double( rule[ 0 ].weight() ) );
          } );
}

template< class ct >
void exploreWeighted ( mc::Explorer &ex, const char *ctName )
{
  typedef Dune::QuadratureRules< ct, 1 > Rules;
  const GeometryType gt = Dune::GeometryTypes::line;
  int alpha = 0;
  for( const Kind &kind : weightedKinds() )
  {
    ++alpha;
    const int top = Rules::maxOrder( gt, kind.qt );
    for( int p = 0; p <= top; ++p )
      ex.run( mc::str( "%s %s line %s order %d", mode.c_str(), ctName, kind.name, p ), [ & ] {
          const auto &rule = Rules::rule( gt, p, kind.qt );
          if( mode == "placement" )
            placement( ex, rule, 1, p, kind.qt );
          else
            checkExact( ex, rule, 1, std::max( p, rule.order() ), true, tolerance< ct >( rule.size(), kind.qt, 1, p ), alpha );
        } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  mode = ex.param( "mode", "exact" );
  const bool t = ex.thorough();
  if( ex.param( "field", "double" ) == "double" )
  {
    exploreVertex< double >( ex, "double" );
    explore< double, 1 >( ex, "double", 1000, 1000 );
    exploreWeighted< double >( ex, "double" );
    explore< double, 2 >( ex, "double", t ? 1000 : 64, 1000 );
    const bool deep = t || mode == "placement";
    explore< double, 3 >( ex, "double", t ? 50 : 26, deep ? 1000 : 61 );
    explore< double, 4 >( ex, "double", t ? 16 : 8, t ? 24 : deep ? 20 : 14 );
    explore< double, 5 >( ex, "double", t ? 8 : 4, t ? 10 : deep ? 8 : 6 );
  }
  else
  {
    exploreVertex< float >( ex, "float" );
    exploreVertex< long double >( ex, "long double" );
    explore< float, 1 >( ex, "float", 1000, 1000 );
    exploreWeighted< float >( ex, "float" );
    explore< float, 2 >( ex, "float", t ? 1000 : 40, 1000 );
    explore< float, 3 >( ex, "float", t ? 20 : 10, t ? 1000 : 30 );
    explore< long double, 1 >( ex, "long double", 1000, 1000 );
    exploreWeighted< long double >( ex, "long double" );
    explore< long double, 2 >( ex, "long double", t ? 1000 : 40, 1000 );
    explore< long double, 3 >( ex, "long double", t ? 20 : 10, t ? 1000 : 30 );
    quadruple( ex );
  }
  return ex.finish();
}
