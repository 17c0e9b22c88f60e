// What is checked for curved geometries, by mode: forward, inverse, volume.
#ifndef VERIF_CURVEDCHECK_HH
#define VERIF_CURVEDCHECK_HH

#include <dune/geometry/utility/algorithms.hh>
#include <dune/geometry/utility/convergence.hh>
#include <dune/geometry/quadraturerules.hh>
#include "curved.hh"

using Dune::GeometryType;
using namespace geocheck;
using namespace curved;

inline std::string mode;

// volume of the image by the model's own integration
inline Real modelVolume ( const Spec &s, int n )
{
  return integrate( s.dim, s.id, n, [ & ] ( const Vec &u ) { return std::sqrt( std::max( Real( 0 ), model::gram( s.map( u ).jac, s.cdim, s.dim ) ) ); } );
}

template< class Geo >
void checkAll ( mc::Explorer &ex, const Geo &geo, Spec s, const std::vector< Vec > &pts, bool corners )
{
  typedef typename Geo::ctype ct;
  constexpr int dim = Geo::mydimension, cdim = Geo::coorddimension;
  if( mode == "volume" )
  {
    const Real exact = modelVolume( s, s.dim == 1 ? 60 : (s.dim == 2 ? 20 : 10) );
    ex.near( geo.volume(), exact, std::is_same_v< ct, float > ? 2e-2L : 2e-7L, "volume()" );
    // looser and tighter tolerances
    for( ct tol : { ct( 1e-2 ), ct( 1e-5 ) } )
    {
      Dune::Impl::ConvergenceOptions< ct > o;
      o.absTol = tol;
      ex.near( geo.volume( o ), exact, 64 * Real( tol ), "volume( tolerance )" );
    }
    if constexpr( !std::is_same_v< ct, float > && dim <= 2 )
    {
      Dune::Impl::ConvergenceOptions< ct > o;
      o.absTol = ct( 1e-11 );
      ex.near( geo.volume( o ), modelVolume( s, s.dim == 1 ? 60 : 32 ), 64e-11L, "volume( small tolerance )" );
    }
    // an explicit quadrature rule
    const auto &rule = Dune::QuadratureRules< ct, dim >::rule( geo.type(), 4 );
    Real sum = 0;
    for( const auto &q : rule )
    {
      Vec u( dim );
      for( int k = 0; k < dim; ++k )
        u[ k ] = q.position()[ k ];
      sum += Real( q.weight() ) * std::sqrt( model::gram( s.map( u ).jac, cdim, dim ) );
    }
    ex.near( geo.volume( rule ), sum, 4096 * std::numeric_limits< ct >::epsilon(), "volume( rule )" );
    return;
  }
  if( mode == "inverse" )
  {
    const Real absTol = std::sqrt( Real( std::numeric_limits< ct >::epsilon() ) );
    for( const Vec &u : pts )
    {
      if( !s.affine && atTip( s.dim, s.id, u ) )
        continue;
      typename Geo::LocalCoordinate x;
      for( int k = 0; k < dim; ++k )
        x[ k ] = ct( u[ k ] );
      const auto y = geo.global( x );
      const auto back = geo.local( y );
      for( int k = 0; k < dim; ++k )
        ex.near( back[ k ], u[ k ], 16 * absTol, "local(global(x))" );
      for( int maxIt : { 0, 1, 2, 3, 100 } )
        for( ct tol : { ct( absTol ), ct( 1e-2 ), ct( absTol / 1024 ) } )
        {
          Dune::Impl::GaussNewtonOptions< ct > o;
          o.maxIt = maxIt;
          o.absTol = tol;
          ex.step();
          try
          {
            const auto z = geo.local( y, o );
            const Real res = (geo.global( z ) - y).two_norm();
            ex.expectf( res <= 1.01L * tol, "local() with %d iterations and tolerance %g returns a point with residual %g", maxIt, double( tol ), double( res ) );
            ex.count( "limited searches that succeed" );
          }
          catch( const Dune::Exception & )
          {
            // one step solves a linear equation
            ex.expectf( maxIt == 0 || !s.affine || tol < absTol, "local() of an affine map fails with %d iterations", maxIt );
            ex.count( "limited searches that fail" );
          }
        }
    }
    // targets around the image and off the image: a solution or an exception
    for( int t = 0; t < 3*cdim; ++t )
    {
      auto y = geo.center();
      y[ t / 3 ] += ct( t % 3 == 0 ? 0.3125 : (t % 3 == 1 ? -0.75 : 8) );
      ex.step();
      try
      {
        const auto z = geo.local( y );
        const Real res = (geo.global( z ) - y).two_norm();
        ex.expectf( res <= 1.01L * absTol, "local() of a point off the image returns a point with residual %g", double( res ) );
        ex.count( "targets with a solution" );
      }
      catch( const Dune::Exception & ) { ex.count( "targets without a solution" ); }
    }
    return;
  }
  s.local = false;
  if( corners )
    checkFrame( ex, geo, s );
  for( const Vec &u : pts )
    checkPoint( ex, geo, s, u );
}

void exploreMapped ( mc::Explorer &ex );
void exploreElements ( mc::Explorer &ex );

#endif
