// Comparison of a geometry object with a model map, point by point.
#ifndef VERIF_GEOCHECK_HH
#define VERIF_GEOCHECK_HH

#include <functional>
#include <limits>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

namespace geocheck
{
  using model::Real;
  using model::Vec;
  using model::Mat;
  using model::MapValue;

  typedef std::function< MapValue ( const Vec & ) > Map;

  struct Spec
  {
    int dim = 0, cdim = 0;
    unsigned id = 0;
    Map map;
    bool affine = true;
    Real tol = 1e-12L;           // for values scaled to order 1
    Real localTol = 1e-7L;       // for iterative inversion
    bool jacobians = true, inverse = true, local = true, integration = true, adjacentPoints = true;
  };

  // Is x a tip of a cone step other than the trivial ones, where a non-affine map has no derivative?
  inline bool atTip ( int dim, unsigned id, const Vec &x )
  {
    Real s = 1;
    for( int k = dim; k >= 2; --k )
      if( !((id >> (k-1)) & 1u) )
      {
        s -= x[ k-1 ];
        if( std::fabs( s ) < 1e-9L )
          return true;
      }
    return false;
  }

  // dense copy of whatever matrix type a geometry returns
  template< class ct, int r, int c, class M >
  inline Mat dense ( const M &m )
  {
    Mat a = model::matrix( r, c );
    if constexpr( r > 0 && c > 0 )
    {
      for( int j = 0; j < c; ++j )
      {
        Dune::FieldVector< ct, c > x( 0 );
        Dune::FieldVector< ct, r > y( 0 );
        x[ j ] = 1;
        m.mv( x, y );
        for( int i = 0; i < r; ++i )
          a[ i ][ j ] = y[ i ];
      }
    }
    return a;
  }

  inline Real scaleOf ( const Mat &a )
  {
    Real s = 1;
    for( const Vec &r : a )
      for( Real v : r )
        s = std::max( s, std::fabs( v ) );
    return s;
  }

  template< class Geo >
  inline void checkPoint ( mc::Explorer &ex, const Geo &geo, const Spec &s, const Vec &u )
  {
    constexpr int dim = Geo::mydimension, cdim = Geo::coorddimension;
    typedef typename Geo::ctype ct;
    typename Geo::LocalCoordinate x;
    for( int k = 0; k < dim; ++k )
      x[ k ] = ct( u[ k ] );
    const MapValue want = s.map( u );
    Real vs = 1;
    for( Real v : want.value )
      vs = std::max( vs, std::fabs( v ) );
    const auto y = geo.global( x );
    for( int k = 0; k < cdim; ++k )
      ex.near( y[ k ], want.value[ k ], s.tol * vs, "global" );

    const bool tip = !s.affine && atTip( s.dim, s.id, u );
    if( s.jacobians && !tip )
    {
      const Real js = scaleOf( want.jac );
      const Mat jt = dense< ct, dim, cdim >( geo.jacobianTransposed( x ) );
      const Mat j = dense< ct, cdim, dim >( geo.jacobian( x ) );
      for( int k = 0; k < cdim; ++k )
        for( int l = 0; l < dim; ++l )
        {
          ex.near( jt[ l ][ k ], want.jac[ k ][ l ], s.tol * js, "jacobianTransposed" );
          ex.near( j[ k ][ l ], want.jac[ k ][ l ], s.tol * js, "jacobian" );
        }
      const Real g = model::gram( want.jac, cdim, dim );
      if( s.integration )
        ex.near( geo.integrationElement( x ), std::sqrt( std::max( g, Real( 0 ) ) ), 64 * s.tol * std::pow( js, dim ), "integrationElement" );
      if( s.inverse )
      {
        const Mat inv = model::pseudoInverse( want.jac, cdim, dim );
        const Real is = scaleOf( inv ) * js;
        const Mat ji = dense< ct, dim, cdim >( geo.jacobianInverse( x ) );
        const Mat jit = dense< ct, cdim, dim >( geo.jacobianInverseTransposed( x ) );
        for( int k = 0; k < dim; ++k )
          for( int l = 0; l < cdim; ++l )
          {
            ex.near( ji[ k ][ l ], inv[ k ][ l ], 16 * s.tol * is * is, "jacobianInverse" );
            ex.near( jit[ l ][ k ], inv[ k ][ l ], 16 * s.tol * is * is, "jacobianInverseTransposed" );
          }
      }
    }
    if( s.local && !tip )
    {
      const auto back = geo.local( y );
      Real is = 1;
      if( s.affine )
        is = scaleOf( model::pseudoInverse( want.jac, cdim, dim ) ) * scaleOf( want.jac );
      for( int k = 0; k < dim; ++k )
        ex.near( back[ k ], u[ k ], s.affine ? 16 * s.tol * is * is * vs : s.localTol, "local(global(x))" );
    }
  }

  template< class Geo >
  inline void checkFrame ( mc::Explorer &ex, const Geo &geo, const Spec &s )
  {
    constexpr int dim = Geo::mydimension, cdim = Geo::coorddimension;
    const model::Cell &m = model::cell( s.dim, s.id );
    ex.expectf( int( geo.type().dim() ) == s.dim && !geo.type().isNone() && model::sameShape( geo.type().id(), s.id ), "type() = %u/%d", geo.type().id(), int( geo.type().dim() ) );
    ex.expectf( geo.affine() == s.affine, "affine() = %d", int( geo.affine() ) );
    ex.expectf( geo.corners() == int( m.corners.size() ), "corners() = %d", geo.corners() );
    for( int v = 0; v < int( m.corners.size() ); ++v )
    {
      const MapValue want = s.map( Vec( m.corners[ v ].begin(), m.corners[ v ].end() ) );
      const auto y = geo.corner( v );
      for( int k = 0; k < cdim; ++k )
        ex.near( y[ k ], want.value[ k ], s.tol * std::max( Real( 1 ), std::fabs( want.value[ k ] ) ), mc::str( "corner(%d)", v ).c_str() );
    }
    std::vector< int > all;
    for( int v = 0; v < int( m.corners.size() ); ++v )
      all.push_back( v );
    const Vec c = model::cornerMean( model::realCorners( m ), all, dim );
    const MapValue want = s.map( c );
    const auto y = geo.center();
    for( int k = 0; k < cdim; ++k )
      ex.near( y[ k ], want.value[ k ], s.tol * std::max( Real( 1 ), std::fabs( want.value[ k ] ) ), "center()" );
    if( s.affine && s.integration )
      ex.near( geo.volume(), std::sqrt( model::gram( want.jac, cdim, dim ) ) / Real( model::inverseVolume( s.dim, s.id ) ),
               64 * s.tol * std::pow( scaleOf( want.jac ), dim ), "volume()" );
    const auto r = referenceElement( geo );
    ex.expectf( r.type() == geo.type(), "referenceElement( geometry ).type() = %u", r.type().id() );
  }

  inline std::vector< Vec > points ( int dim, unsigned id, long long s )
  {
    std::vector< Vec > r;
    for( const model::IVec &p : model::latticePoints( dim, id, s ) )
    {
      Vec u( dim );
      for( int k = 0; k < dim; ++k )
        u[ k ] = Real( p[ k ] ) / Real( s );
      r.push_back( u );
    }
    return r;
  }

  // points of a cone at the distances 2^-10, ..., 2^-k from its tip (exact numbers)
  inline std::vector< Vec > nearTip ( int dim, unsigned id, int k )
  {
    std::vector< Vec > r;
    if( dim < 2 || ((id >> (dim-1)) & 1u) )
      return r;
    for( int j = 10; j <= k; j += 10 )
    {
      const Real h = std::ldexp( Real( 1 ), -j );
      for( const model::IVec &p : model::latticePoints( dim-1, id & ((1u << (dim-1))-1), 2 ) )
      {
        Vec u( dim );
        for( int i = 0; i < dim-1; ++i )
          u[ i ] = h * Real( p[ i ] ) / 2;
        u[ dim-1 ] = 1 - h;
        r.push_back( u );
      }
    }
    return r;
  }

  // the points above and the corners of the cube [-1,2]^dim, which lie outside of the cell
  inline std::vector< Vec > pointsAndOutside ( int dim, unsigned id, long long s )
  {
    std::vector< Vec > r;
    for( int b = 0; dim > 0 && b < (1 << dim); ++b )
    {
      Vec u( dim );
      for( int k = 0; k < dim; ++k )
        u[ k ] = ((b >> k) & 1) ? Real( 2 ) : Real( -1 );
      r.push_back( u );
    }
    for( const Vec &u : points( dim, id, s ) )
      r.push_back( u );
    return r;
  }

  // all integer (n x m)-matrices with entries in [lo,hi] that have full rank, in order
  template< class F >
  inline void forAllFullRank ( int n, int m, int lo, int hi, F f )
  {
    std::vector< int > e( n*m, lo );
    long index = 0;
    while( true )
    {
      Mat a = model::matrix( n, m );
      for( int i = 0; i < n; ++i )
        for( int j = 0; j < m; ++j )
          a[ i ][ j ] = e[ i*m+j ];
      if( model::gram( a, n, m ) > 0.5L )
        f( a, e, index );
      ++index;
      int k = 0;
      while( k < n*m && ++e[ k ] > hi )
        e[ k++ ] = lo;
      if( k == n*m )
        break;
    }
  }

  // is the corner-interpolating map with these images affine?
  inline bool affineImages ( const model::Cell &m, const std::vector< Vec > &Y, int cdim )
  {
    const std::vector< int > fr = model::frame( m.faces[ 0 ][ 0 ] );
    for( std::size_t v = 0; v < m.corners.size(); ++v )
      for( int i = 0; i < cdim; ++i )
      {
        Real want = Y[ fr[ 0 ] ][ i ];
        for( int k = 0; k < m.dim; ++k )
          want += Real( m.corners[ v ][ k ] ) * (Y[ fr[ k+1 ] ][ i ] - Y[ fr[ 0 ] ][ i ]);
        if( std::fabs( want - Y[ v ][ i ] ) > 1e-12L )
          return false;
      }
    return true;
  }
}

#endif
