// What the options of the curved inversion mean: the iteration of the
// documentation (Gauss-Newton steps, shortened until the residual decreases)
// is carried out independently, and local() succeeds or fails as it does.
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/utility/algorithms.hh>
#include "curved.hh"

using Dune::GeometryType;
using curved::Multi;
using curved::PolyMap;
using model::Real;
using model::Vec;

struct Options
{
  int maxIt, maxInnerIt;
  Real theta, absTol;
};

// what the documented iteration does
struct Outcome
{
  bool decided = true; // no decision is close
  bool found = false;
  int steps = 0, trials = 0;
  Vec x;
};

static Real norm ( const Vec &v )
{
  Real s = 0;
  for( Real a : v )
    s += a*a;
  return std::sqrt( s );
}

static Outcome iterate ( const PolyMap &f, const Vec &y, Vec x, const Options &o )
{
  const int dim = f.dim, n = f.n;
  Outcome r;
  auto residual = [ & ] ( const Vec &u ) {
      Vec d = f( u ).value;
      for( int c = 0; c < n; ++c )
        d[ c ] -= y[ c ];
      return d;
    };
  // close to the tolerance nothing is said
  auto small = [ & ] ( Real res ) {
      if( res > 0.9L * o.absTol && res < 1.1L * o.absTol )
        r.decided = false;
      return res < o.absTol;
    };
  Vec dy = residual( x );
  Real res0 = norm( dy );
  bool done = small( res0 );
  for( int i = 0; i < o.maxIt && !done && r.decided; ++i )
  {
    const auto J = f( x ).jac;
    model::Mat A = model::matrix( dim, dim );
    Vec b( dim, 0 );
    for( int j = 0; j < dim; ++j )
      for( int c = 0; c < n; ++c )
      {
        b[ j ] += J[ c ][ j ] * dy[ c ];
        for( int k = 0; k < dim; ++k )
          A[ j ][ k ] += J[ c ][ j ] * J[ c ][ k ];
      }
    const Real det = (dim == 1 ? A[ 0 ][ 0 ] : A[ 0 ][ 0 ] * A[ 1 ][ 1 ] - A[ 0 ][ 1 ] * A[ 1 ][ 0 ]);
    if( det < 1e-6L )
    {
      r.decided = false;
      break;
    }
    Vec dx( dim );
    if( dim == 1 )
      dx[ 0 ] = b[ 0 ] / det;
    else
    {
      dx[ 0 ] = (A[ 1 ][ 1 ] * b[ 0 ] - A[ 0 ][ 1 ] * b[ 1 ]) / det;
      dx[ 1 ] = (A[ 0 ][ 0 ] * b[ 1 ] - A[ 1 ][ 0 ] * b[ 0 ]) / det;
    }
    ++r.steps;
    Real alpha = 1, res = res0;
    Vec u = x;
    bool less = false;
    for( int j = 0; j < o.maxInnerIt && !less; ++j, alpha *= o.theta )
    {
      ++r.trials;
      for( int k = 0; k < dim; ++k )
        u[ k ] = x[ k ] - alpha * dx[ k ];
      dy = residual( u );
      res = norm( dy );
      if( std::fabs( res - res0 ) < 1e-4L * res0 )
        r.decided = false;
      less = res < res0;
    }
    if( !less )
      return r;
    x = u;
    res0 = res;
    done = small( res0 );
  }
  r.found = done;
  r.x = x;
  return r;
}

// the outcome, unless rounding may change it
static Outcome robust ( const PolyMap &f, const Vec &y, const Vec &x, const Options &o )
{
  Outcome r = iterate( f, y, x, o );
  for( int s : { -1, 1 } )
  {
    Vec z = x;
    for( Real &a : z )
      a += s * 1e-9L;
    const Outcome q = iterate( f, y, z, o );
    r.decided = r.decided && q.decided && q.found == r.found && q.steps == r.steps && q.trials == r.trials;
    if( r.decided && r.found )
      for( std::size_t k = 0; k < x.size(); ++k )
        r.decided = r.decided && std::fabs( q.x[ k ] - r.x[ k ] ) < 1e-4L;
  }
  return r;
}

template< class Geo >
static void check ( mc::Explorer &ex, const Geo &geo, const PolyMap &f, const Vec &y, const Vec &start )
{
  constexpr int dim = Geo::mydimension, cdim = Geo::coorddimension;
  typename Geo::GlobalCoordinate target;
  for( int c = 0; c < cdim; ++c )
    target[ c ] = double( y[ c ] );
  const Real eps = std::sqrt( Real( std::numeric_limits< double >::epsilon() ) );
  for( Real absTol : { eps, Real( 1 ) / 64 } )
    for( int maxIt : { 0, 1, 2, 3, 5, 100 } )
      for( int maxInnerIt : { 1, 2, 3, 10 } )
        for( Real theta : { Real( 1 ) / 2, Real( 1 ) / 4, Real( 3 ) / 4 } )
        {
          const Outcome r = robust( f, y, start, { maxIt, maxInnerIt, theta, absTol } );
          if( !r.decided )
          {
            ex.count( "searches that rounding may decide" );
            continue;
          }
          Dune::Impl::GaussNewtonOptions< double > o;
          o.maxIt = maxIt;
          o.maxInnerIt = maxInnerIt;
          o.theta = double( theta );
          o.absTol = double( absTol );
          ex.step();
          bool found = true;
          typename Geo::LocalCoordinate x( 0 );
          try { x = geo.local( target, o ); }
          catch( const Dune::Exception & ) { found = false; }
          ex.expectf( found == r.found, "local() with maxIt %d, maxInnerIt %d, theta %g, absTol %g %s; the iteration %s after %d steps and %d trials",
                      maxIt, maxInnerIt, double( theta ), double( absTol ), found ? "succeeds" : "fails", r.found ? "succeeds" : "fails", r.steps, r.trials );
          if( found && r.found )
          {
            Vec u( dim );
            for( int k = 0; k < dim; ++k )
              u[ k ] = x[ k ];
            Vec v = f( u ).value;
            for( int c = 0; c < cdim; ++c )
              v[ c ] -= y[ c ];
            ex.expectf( norm( v ) <= 1.01L * absTol, "local() returns a point with residual %g", double( norm( v ) ) );
            if( absTol == eps )
              for( int k = 0; k < dim; ++k )
                ex.expectf( std::fabs( u[ k ] - r.x[ k ] ) < 1e-3L, "local() returns %g instead of %g in coordinate %d", double( u[ k ] ), double( r.x[ k ] ), k );
          }
          ex.count( r.found ? (r.trials > r.steps ? "searches that succeed with shortened steps" : "searches that succeed") : "searches that fail" );
          ex.outcome( mc::str( "%d %d %d", int( r.found ), r.steps, r.trials ) );
        }
}

template< int dim, int cdim >
static void both ( mc::Explorer &ex, unsigned w, const PolyMap &f, int fine )
{
  const GeometryType gt( w, dim );
  const auto re = Dune::referenceElement< double, dim >( gt );
  Vec start( dim );
  for( int k = 0; k < dim; ++k )
    start[ k ] = (gt.isSimplex() && dim > 1 ? Real( 1 ) / (dim+1) : Real( 1 ) / 2);
  // as a mapping of the cell
  const curved::PolyFunction< double, dim, cdim > p( f );
  std::vector< Dune::FieldVector< double, dim > > corners;
  for( int i = 0; i < re.size( dim ); ++i )
    corners.push_back( re.position( i, dim ) );
  const Dune::MappedGeometry mapped( p, Dune::AffineGeometry< double, dim, dim >( re, corners ) );
  // and by a basis of monomials
  typedef curved::Element< double, dim > LFE;
  int order = 0;
  for( const Multi &a : f.idx )
    order = std::max( order, *std::max_element( a.begin(), a.end() ) );
  const LFE lfe = LFE::monomials( 'P', order );
  std::vector< Dune::FieldVector< double, cdim > > coeff;
  for( const Multi &a : lfe.data->idx )
  {
    Dune::FieldVector< double, cdim > c( 0 );
    for( std::size_t i = 0; i < f.idx.size(); ++i )
      if( f.idx[ i ] == a )
        for( int l = 0; l < cdim; ++l )
          c[ l ] = double( f.coeff[ i ][ l ] );
    coeff.push_back( c );
  }
  const Dune::LocalFiniteElementGeometry< LFE, cdim > element( re, lfe, coeff );
  for( const model::IVec &q : model::latticePoints( dim, w, fine ) )
  {
    Vec u( dim );
    for( int k = 0; k < dim; ++k )
      u[ k ] = Real( q[ k ] ) / fine;
    const Vec y = f( u ).value;
    check( ex, mapped, f, y, start );
    check( ex, element, f, y, start );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const int range = (ex.thorough() ? 8 : 5);
  // cubic maps of the line
  for( int a : { 1, 2, -3 } )
    for( int b = -range; b <= range; ++b )
      ex.run( mc::str( "line %d x + %d x^2", a, b ), [ & ] {
          for( int c = -range; c <= range; ++c )
          {
            const auto idx = curved::multiIndices( 'P', 1, 3 );
            PolyMap f{ 1, 1, idx, std::vector< Vec >( idx.size(), Vec( 1, 0 ) ) };
            for( std::size_t i = 0; i < idx.size(); ++i )
              f.coeff[ i ][ 0 ] = (idx[ i ][ 0 ] == 0 ? 1 : (idx[ i ][ 0 ] == 1 ? a : (idx[ i ][ 0 ] == 2 ? b : c)));
            both< 1, 1 >( ex, 1, f, ex.thorough() ? 8 : 4 );
            // and as a curve in the plane
            PolyMap g{ 1, 2, idx, std::vector< Vec >( idx.size(), Vec( 2, 0 ) ) };
            for( std::size_t i = 0; i < idx.size(); ++i )
              g.coeff[ i ] = { f.coeff[ i ][ 0 ], Real( idx[ i ][ 0 ] == 1 ) };
            both< 1, 2 >( ex, 1, g, 4 );
          }
        } );
  // quadratic maps of the triangle and the square
  const auto idx = curved::multiIndices( 'P', 2, 2 );
  const int r = (ex.thorough() ? 3 : 2);
  for( unsigned w : { 0u, 3u } )
    for( int b = -r; b <= r; ++b )
      for( int c = -r; c <= r; ++c )
        ex.run( mc::str( "topology %u quadratic %d %d", w, b, c ), [ & ] {
            for( int d = -r; d <= r; ++d )
              for( int s : { 0, 1 } )
              {
                PolyMap f{ 2, 2, idx, std::vector< Vec >( idx.size(), Vec( 2, 0 ) ) };
                for( std::size_t i = 0; i < idx.size(); ++i )
                {
                  const int p = idx[ i ][ 0 ], q = idx[ i ][ 1 ];
                  if( p == 1 && q == 0 )
                    f.coeff[ i ] = { 1, Real( s ) / 2 };
                  if( p == 0 && q == 1 )
                    f.coeff[ i ] = { 0, 1 };
                  if( p == 2 )
                    f.coeff[ i ] = { 0, Real( b ) };
                  if( q == 2 )
                    f.coeff[ i ] = { Real( c ), 0 };
                  if( p == 1 && q == 1 )
                    f.coeff[ i ] = { Real( d ), Real( s * c ) / 2 };
                }
                both< 2, 2 >( ex, w, f, 2 );
              }
          } );
  return ex.finish();
}
