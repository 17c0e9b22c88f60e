// Reference model of cells and maps, written independently of dune-geometry.
//
// A cell of dimension d is described by a construction word: starting from a
// point, step k (k = 0,...,d-1) either forms the prism over (bit k set) or the
// cone over (bit k clear) the cell built so far.  The model keeps explicit
// vertex lists for every face; numbering questions are answered by comparing
// vertex sets, never by index arithmetic.
#ifndef VERIF_MODEL_HH
#define VERIF_MODEL_HH

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace model
{
  typedef long double Real;
  typedef std::vector< Real > Vec;
  typedef std::vector< Vec > Mat;       // row major
  typedef std::vector< long long > IVec;

  // --- cells --------------------------------------------------------------

  struct Face
  {
    int dim;
    unsigned id;
    std::vector< int > verts;
  };

  struct Cell
  {
    int dim = 0;
    unsigned id = 0;
    std::vector< IVec > corners;              // 0/1 coordinates
    std::vector< std::vector< Face > > faces; // by codimension

    int size ( int c ) const { return int( faces[ c ].size() ); }

    std::set< int > vertexSet ( int c, int i ) const
    {
      return std::set< int >( faces[ c ][ i ].verts.begin(), faces[ c ][ i ].verts.end() );
    }

    // number of the codim-c face with a given vertex set, -1 if there is none
    int find ( int c, const std::set< int > &vs ) const
    {
      for( int i = 0; i < size( c ); ++i )
        if( vertexSet( c, i ) == vs )
          return i;
      return -1;
    }
  };

  inline unsigned canonicalId ( unsigned id ) { return id & ~1u; }
  inline bool sameShape ( unsigned a, unsigned b ) { return canonicalId( a ) == canonicalId( b ); }

  inline const Cell &cell ( int dim, unsigned id )
  {
    static std::map< std::pair< int, unsigned >, std::unique_ptr< Cell > > cache;
    id = canonicalId( id ) & ((1u << dim) - 1u);
    auto &slot = cache[ { dim, id } ];
    if( slot )
      return *slot;
    auto c = std::make_unique< Cell >();
    c->dim = dim;
    c->id = id;
    c->faces.resize( dim+1 );
    if( dim == 0 )
    {
      c->corners.push_back( IVec() );
      c->faces[ 0 ].push_back( Face{ 0, 0u, { 0 } } );
    }
    else
    {
      const Cell &b = cell( dim-1, id & ((1u << (dim-1)) - 1u) );
      const bool prism = (id >> (dim-1)) & 1u;
      const int n = int( b.corners.size() );
      for( auto x : b.corners ) { x.push_back( 0 ); c->corners.push_back( x ); }
      if( prism )
        for( auto x : b.corners ) { x.push_back( 1 ); c->corners.push_back( x ); }
      else
      {
        IVec x( dim, 0 );
        x[ dim-1 ] = 1;
        c->corners.push_back( x );
      }
      for( int k = 0; k <= dim; ++k )
      {
        auto &f = c->faces[ k ];
        if( prism )
        {
          if( k <= dim-1 )
            for( const Face &g : b.faces[ k ] )
            {
              Face h{ g.dim+1, g.id | (1u << g.dim), g.verts };
              for( int v : g.verts )
                h.verts.push_back( v + n );
              f.push_back( h );
            }
          if( k >= 1 )
          {
            for( const Face &g : b.faces[ k-1 ] )
              f.push_back( g );
            for( Face g : b.faces[ k-1 ] )
            {
              for( int &v : g.verts )
                v += n;
              f.push_back( g );
            }
          }
        }
        else
        {
          if( k >= 1 )
            for( const Face &g : b.faces[ k-1 ] )
              f.push_back( g );
          if( k <= dim-1 )
            for( Face g : b.faces[ k ] )
            {
              g.dim += 1;
              g.verts.push_back( n );
              f.push_back( g );
            }
          else
            f.push_back( Face{ 0, 0u, { n } } );
        }
      }
    }
    slot = std::move( c );
    return *slot;
  }

  // reciprocal of the volume of the cell (an integer)
  inline std::uint64_t inverseVolume ( int dim, unsigned id )
  {
    std::uint64_t v = 1;
    for( int k = 0; k < dim; ++k )
      if( !((id >> k) & 1u) )
        v *= std::uint64_t( k+1 );
      // bit 0 does not matter: both choices give the factor 1
    return v;
  }

  // exact membership of the point x/s in the closed cell
  inline bool inside ( int dim, unsigned id, const long long *x, long long s )
  {
    if( dim == 0 )
      return true;
    const long long z = x[ dim-1 ];
    if( z < 0 || z > s )
      return false;
    const bool prism = (dim == 1) || ((id >> (dim-1)) & 1u);
    return inside( dim-1, id, x, prism ? s : s - z );
  }

  // --- small dense linear algebra -----------------------------------------

  inline Mat matrix ( int r, int c ) { return Mat( r, Vec( c, 0 ) ); }

  inline Real det ( Mat a )
  {
    const int n = int( a.size() );
    Real d = 1;
    for( int k = 0; k < n; ++k )
    {
      int p = k;
      for( int i = k+1; i < n; ++i )
        if( std::fabs( a[ i ][ k ] ) > std::fabs( a[ p ][ k ] ) )
          p = i;
      if( a[ p ][ k ] == 0 )
        return 0;
      if( p != k ) { std::swap( a[ p ], a[ k ] ); d = -d; }
      d *= a[ k ][ k ];
      for( int i = k+1; i < n; ++i )
      {
        const Real f = a[ i ][ k ] / a[ k ][ k ];
        for( int j = k; j < n; ++j )
          a[ i ][ j ] -= f * a[ k ][ j ];
      }
    }
    return d;
  }

  inline Mat transpose ( const Mat &a, int rows, int cols )
  {
    Mat t = matrix( cols, rows );
    for( int i = 0; i < rows; ++i )
      for( int j = 0; j < cols; ++j )
        t[ j ][ i ] = a[ i ][ j ];
    return t;
  }

  inline Mat mul ( const Mat &a, const Mat &b, int n, int k, int m )
  {
    Mat c = matrix( n, m );
    for( int i = 0; i < n; ++i )
      for( int j = 0; j < m; ++j )
        for( int l = 0; l < k; ++l )
          c[ i ][ j ] += a[ i ][ l ] * b[ l ][ j ];
    return c;
  }

  inline Mat inverse ( Mat a )
  {
    const int n = int( a.size() );
    Mat b = matrix( n, n );
    for( int i = 0; i < n; ++i )
      b[ i ][ i ] = 1;
    for( int k = 0; k < n; ++k )
    {
      int p = k;
      for( int i = k+1; i < n; ++i )
        if( std::fabs( a[ i ][ k ] ) > std::fabs( a[ p ][ k ] ) )
          p = i;
      if( a[ p ][ k ] == 0 )
        throw std::runtime_error( "model: singular matrix" );
      std::swap( a[ p ], a[ k ] );
      std::swap( b[ p ], b[ k ] );
      const Real d = a[ k ][ k ];
      for( int j = 0; j < n; ++j ) { a[ k ][ j ] /= d; b[ k ][ j ] /= d; }
      for( int i = 0; i < n; ++i )
        if( i != k )
        {
          const Real f = a[ i ][ k ];
          for( int j = 0; j < n; ++j ) { a[ i ][ j ] -= f * a[ k ][ j ]; b[ i ][ j ] -= f * b[ k ][ j ]; }
        }
    }
    return b;
  }

  // Gram determinant det( J^T J ) of a (n x m)-matrix J, m <= n
  inline Real gram ( const Mat &J, int n, int m )
  {
    return det( mul( transpose( J, n, m ), J, m, n, m ) );
  }

  // Moore-Penrose inverse (J^T J)^{-1} J^T of a full rank (n x m)-matrix, m <= n
  inline Mat pseudoInverse ( const Mat &J, int n, int m )
  {
    const Mat Jt = transpose( J, n, m );
    return mul( inverse( mul( Jt, J, m, n, m ) ), Jt, m, m, n );
  }

  // --- maps ---------------------------------------------------------------

  struct MapValue
  {
    Vec value;   // n
    Mat jac;     // n x dim
  };

  // Map of the reference cell (dim,id) which interpolates the corner images:
  // linear between bottom and top of a prism, linear towards the tip of a cone.
  inline MapValue interpolate ( int dim, unsigned id, const std::vector< Vec > &corners, std::size_t offset, const Real *x, int n )
  {
    MapValue r;
    if( dim == 0 )
    {
      r.value = corners[ offset ];
      r.jac = matrix( n, 0 );
      return r;
    }
    const Real z = x[ dim-1 ];
    const bool prism = (dim > 1) && ((id >> (dim-1)) & 1u);
    const std::size_t nb = cell( dim-1, id & ((1u << (dim-1)) - 1u) ).corners.size();
    r.value.assign( n, 0 );
    r.jac = matrix( n, dim );
    if( prism || dim == 1 )
    {
      const MapValue a = interpolate( dim-1, id, corners, offset, x, n );
      const MapValue b = interpolate( dim-1, id, corners, offset + nb, x, n );
      for( int i = 0; i < n; ++i )
      {
        r.value[ i ] = (1-z) * a.value[ i ] + z * b.value[ i ];
        for( int j = 0; j < dim-1; ++j )
          r.jac[ i ][ j ] = (1-z) * a.jac[ i ][ j ] + z * b.jac[ i ][ j ];
        r.jac[ i ][ dim-1 ] = b.value[ i ] - a.value[ i ];
      }
    }
    else
    {
      const Vec &tip = corners[ offset + nb ];
      Vec u( dim-1, 0 );
      if( z != 1 )
        for( int j = 0; j < dim-1; ++j )
          u[ j ] = x[ j ] / (1-z);
      const MapValue a = interpolate( dim-1, id, corners, offset, u.data(), n );
      for( int i = 0; i < n; ++i )
      {
        r.value[ i ] = (1-z) * a.value[ i ] + z * tip[ i ];
        Real dz = tip[ i ] - a.value[ i ];
        for( int j = 0; j < dim-1; ++j )
        {
          r.jac[ i ][ j ] = a.jac[ i ][ j ];
          dz += a.jac[ i ][ j ] * u[ j ];
        }
        r.jac[ i ][ dim-1 ] = dz;
      }
    }
    return r;
  }

  inline Vec cornerMean ( const std::vector< Vec > &pts, const std::vector< int > &which, int n )
  {
    Vec m( n, 0 );
    for( int v : which )
      for( int i = 0; i < n; ++i )
        m[ i ] += pts[ v ][ i ];
    for( int i = 0; i < n; ++i )
      m[ i ] /= Real( which.size() );
    return m;
  }

  inline std::vector< Vec > realCorners ( const Cell &c )
  {
    std::vector< Vec > r;
    for( const IVec &x : c.corners )
      r.push_back( Vec( x.begin(), x.end() ) );
    return r;
  }

  // Indices of the face's vertices that are the images of the origin and of
  // the unit vectors under the face's own parametrisation.
  inline std::vector< int > frame ( const Face &f )
  {
    const Cell &c = cell( f.dim, f.id );
    std::vector< int > r;
    for( int k = -1; k < f.dim; ++k )
    {
      int hit = -1;
      for( std::size_t v = 0; v < c.corners.size(); ++v )
      {
        bool ok = true;
        for( int j = 0; j < f.dim; ++j )
          ok &= (c.corners[ v ][ j ] == (j == k ? 1 : 0));
        if( ok )
          hit = f.verts[ v ];
      }
      r.push_back( hit );
    }
    return r;
  }

  // Vector orthogonal to the d-1 given vectors of R^d whose length is their Gram volume
  inline Vec cross ( const std::vector< Vec > &v, int d )
  {
    Vec n( d, 0 );
    for( int k = 0; k < d; ++k )
    {
      Mat a = matrix( d, d );
      a[ 0 ][ k ] = 1;
      for( int i = 0; i < d-1; ++i )
        a[ i+1 ] = v[ i ];
      n[ k ] = det( a );
    }
    return n;
  }

  // --- lattice points -------------------------------------------------------

  // all points of the closed cell on the lattice Z^d / s
  inline std::vector< IVec > latticePoints ( int dim, unsigned id, long long s )
  {
    std::vector< IVec > r;
    IVec x( dim, 0 );
    while( true )
    {
      if( inside( dim, id, x.data(), s ) )
        r.push_back( x );
      int k = 0;
      while( k < dim && ++x[ k ] > s )
        x[ k++ ] = 0;
      if( k == dim )
        break;
    }
    return r;
  }
} // namespace model

#endif
