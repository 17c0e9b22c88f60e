// Families of corner coordinates: a linear base map plus displaced corners.
#ifndef VERIF_CORNERS_HH
#define VERIF_CORNERS_HH

#include "geocheck.hh"

namespace family
{
  using model::Real;
  using model::Vec;
  using model::Mat;

  // full rank (n x m) base matrices of moderate condition
  inline std::vector< Mat > bases ( int n, int m )
  {
    std::vector< Mat > r;
    Mat a = model::matrix( n, m );
    for( int j = 0; j < m; ++j )
      a[ j ][ j ] = 1;
    r.push_back( a );
    // last coordinates first, with shear
    Mat b = model::matrix( n, m );
    for( int j = 0; j < m; ++j )
    {
      b[ n-1-j ][ j ] = (j % 2 ? -1.5L : 1.3L);
      if( n-2-j >= 0 )
        b[ n-2-j ][ j ] += 0.5L;
    }
    r.push_back( b );
    Mat c = model::matrix( n, m );
    for( int i = 0; i < n; ++i )
      for( int j = 0; j < m; ++j )
        c[ i ][ j ] = (i == j ? 1.7L : ((i + 2*j) % 3 - 1) * 0.37L);
    r.push_back( c );
    return r;
  }

  inline Vec displacement ( int which, int n )
  {
    Vec d( n, 0 );
    if( which == 0 )
      return d;
    for( int k = 0; k < n; ++k )
      d[ k ] = (which == 1 ? (k % 2 ? -0.125L : 0.19L) : which == 2 ? (k % 3 == 0 ? -0.13L : 0.15625L) : (k % 2 ? 0.093L : -0.0625L));
    return d;
  }

  struct Config
  {
    std::string key;
    std::vector< Vec > Y;
  };

  // every assignment of displacements 0..alphabet-1 to the corners, for every base;
  // single: only assignments that move at most one corner
  template< class F >
  inline void forAll ( int dim, unsigned id, int cdim, int alphabet, bool single, F f )
  {
    const model::Cell &m = model::cell( dim, id );
    const int n = int( m.corners.size() );
    const auto B = bases( cdim, dim );
    for( std::size_t b = 0; b < B.size(); ++b )
    {
      std::vector< int > e( n, 0 );
      while( true )
      {
        int moved = 0;
        for( int v : e )
          moved += (v != 0);
        if( !single || moved <= 1 )
        {
          Config c;
          c.key = mc::str( "%u/%d in %d base %d moved ", id, dim, cdim, int( b ) );
          for( int v = 0; v < n; ++v )
          {
            c.key += char( '0' + e[ v ] );
            Vec y = displacement( e[ v ], cdim );
            for( int i = 0; i < cdim; ++i )
            {
              y[ i ] += Real( i ) / 4 - 0.375L;
              for( int j = 0; j < dim; ++j )
                y[ i ] += B[ b ][ i ][ j ] * Real( m.corners[ v ][ j ] );
            }
            c.Y.push_back( y );
          }
          f( c );
        }
        if( single )
        {
          // next one-hot assignment
          int p = -1;
          for( int v = 0; v < n; ++v )
            if( e[ v ] )
              p = v;
          if( p < 0 )
            e[ 0 ] = 1;
          else if( e[ p ]+1 < alphabet )
            ++e[ p ];
          else
          {
            e[ p ] = 0;
            if( p+1 == n )
              break;
            e[ p+1 ] = 1;
          }
          continue;
        }
        int k = 0;
        while( k < n && ++e[ k ] >= alphabet )
          e[ k++ ] = 0;
        if( k == n )
          break;
      }
    }
  }

  template< class ct, int cdim >
  inline std::vector< Dune::FieldVector< ct, cdim > > corners ( const Config &c )
  {
    std::vector< Dune::FieldVector< ct, cdim > > r;
    for( const Vec &y : c.Y )
    {
      Dune::FieldVector< ct, cdim > z;
      for( int i = 0; i < cdim; ++i )
        z[ i ] = ct( y[ i ] );
      r.push_back( z );
    }
    return r;
  }

  inline geocheck::Spec spec ( int dim, unsigned id, int cdim, const Config &c, Real eps )
  {
    geocheck::Spec s;
    s.dim = dim; s.cdim = cdim; s.id = id;
    s.affine = geocheck::affineImages( model::cell( dim, id ), c.Y, cdim );
    s.tol = 128 * eps;
    s.localTol = std::max( Real( 256 ) * eps, Real( 1e-12L ) );
    const std::vector< Vec > *Y = &c.Y;
    s.map = [ dim, id, cdim, Y ] ( const Vec &u ) { return model::interpolate( dim, id, *Y, 0, u.data(), cdim ); };
    return s;
  }
}

#endif
