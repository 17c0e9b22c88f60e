// The matrix routines geometries compute with, on all small integer matrices.
#include <dune/geometry/multilineargeometry.hh>
#include "common.hh"

typedef long long Int;
typedef long double Real;
typedef std::vector< std::vector< Int > > IMat;

// determinant by expansion along the first row
static Int det ( const IMat &a )
{
  const int n = a.size();
  if( n == 0 )
    return 1;
  Int d = 0;
  for( int j = 0; j < n; ++j )
  {
    if( a[ 0 ][ j ] == 0 )
      continue;
    IMat b( n-1 );
    for( int i = 1; i < n; ++i )
      for( int k = 0; k < n; ++k )
        if( k != j )
          b[ i-1 ].push_back( a[ i ][ k ] );
    d += (j % 2 ? -1 : 1) * a[ 0 ][ j ] * det( b );
  }
  return d;
}

static Int cofactor ( const IMat &a, int r, int c )
{
  const int n = a.size();
  IMat b;
  for( int i = 0; i < n; ++i )
  {
    if( i == r )
      continue;
    b.emplace_back();
    for( int k = 0; k < n; ++k )
      if( k != c )
        b.back().push_back( a[ i ][ k ] );
  }
  return ((r+c) % 2 ? -1 : 1) * det( b );
}

template< class ct, int m, int n >
void check ( mc::Explorer &ex, const IMat &a, int shift )
{
  typedef typename Dune::MultiLinearGeometryTraits< ct >::MatrixHelper Helper;
  const Real scale = std::ldexp( Real( 1 ), shift );
  const Real eps = std::numeric_limits< ct >::epsilon();

  // A A^T in integers
  IMat g( m, std::vector< Int >( m, 0 ) );
  bool zeroRow = false;
  Real normA = 0;
  for( int i = 0; i < m; ++i )
    for( int j = 0; j < m; ++j )
      for( int k = 0; k < n; ++k )
        g[ i ][ j ] += a[ i ][ k ] * a[ j ][ k ];
  for( int i = 0; i < m; ++i )
  {
    zeroRow |= (g[ i ][ i ] == 0);
    normA += g[ i ][ i ];
  }
  normA = std::sqrt( normA );
  const Int d = det( g );

  Dune::FieldMatrix< ct, m, n > A;
  Dune::FieldMatrix< ct, n, m > AT;
  for( int i = 0; i < m; ++i )
    for( int k = 0; k < n; ++k )
      A[ i ][ k ] = AT[ k ][ i ] = ct( a[ i ][ k ] * scale );
  const auto A0 = A;
  const auto AT0 = AT;

  // products of the pseudo-inverse with vectors
  std::vector< std::array< int, 4 > > vectors{ { 1, -2, 3, -1 }, { 0, 0, 0, 0 } };
  for( int k = 0; k < n; ++k )
  {
    vectors.push_back( { 0, 0, 0, 0 } );
    vectors.back()[ k ] = 1;
  }

  if( d == 0 )
  {
    // volume elements of square matrices and of triangles in space are stable
    if( m == n || (m == 2 && n == 3) )
      if( m <= 3 && m > 1 )
        ex.near( Helper::sqrtDetAAT( A ), 0, 16 * eps * std::pow( normA*scale, Real( m ) ), "volume element of a singular matrix" );
    if( zeroRow )
    {
      Dune::FieldVector< ct, n > x( 1 );
      Dune::FieldVector< ct, m > y( 0 );
      ex.expect( !Helper::xTRightInvA( A, x, y ), "a matrix with a zero row passes for regular" );
      if constexpr( requires { Helper::leftInvAx( AT, x, y ); } )
        ex.expect( !Helper::leftInvAx( AT, x, y ), "a matrix with a zero column passes for regular" );
    }
    ex.outcome( mc::str( "%d %d singular", m, n ) );
    return;
  }
  ex.outcome( mc::str( "%d %d %lld", m, n, d ) );

  // right inverse A^T (A A^T)^-1
  std::vector< std::vector< Real > > inv( n, std::vector< Real >( m, 0 ) );
  Real normR = 0;
  for( int k = 0; k < n; ++k )
    for( int i = 0; i < m; ++i )
    {
      Int s = 0;
      for( int j = 0; j < m; ++j )
        s += a[ j ][ k ] * cofactor( g, j, i );
      inv[ k ][ i ] = Real( s ) / Real( d ) / scale;
      normR += inv[ k ][ i ] * inv[ k ][ i ];
    }
  normR = std::sqrt( normR );
  const Real kappa = normA*scale*normR * normA*scale*normR;
  const Real tol = 16 * eps * kappa;
  const Real volume = std::sqrt( Real( d ) ) * std::pow( scale, Real( m ) );

  ex.near( Helper::sqrtDetAAT( A ) / volume, 1, tol, "sqrtDetAAT" );
  Dune::FieldMatrix< ct, n, m > R;
  ex.near( Helper::rightInvA( A, R ) / volume, 1, tol, "volume element returned by rightInvA" );
  for( int k = 0; k < n; ++k )
    for( int i = 0; i < m; ++i )
      ex.near( R[ k ][ i ] / normR, inv[ k ][ i ] / normR, tol, "rightInvA" );
  for( const auto &v : vectors )
  {
    Dune::FieldVector< ct, n > x;
    Dune::FieldVector< ct, m > y( 7 );
    Real norm = 0;
    for( int k = 0; k < n; ++k )
    {
      x[ k ] = v[ k ];
      norm += std::abs( v[ k ] );
    }
    ex.expect( bool( Helper::xTRightInvA( A, x, y ) ), "xTRightInvA takes a regular matrix for singular" );
    for( int i = 0; i < m; ++i )
    {
      Real want = 0;
      for( int k = 0; k < n; ++k )
        want += inv[ k ][ i ] * v[ k ];
      ex.near( y[ i ] / normR, want / normR, tol * norm, "xTRightInvA" );
    }
    if constexpr( requires { Helper::leftInvAx( AT, x, y ); } )
    {
      Dune::FieldVector< ct, m > z( 7 );
      ex.expect( bool( Helper::leftInvAx( AT, x, z ) ), "leftInvAx takes a regular matrix for singular" );
      for( int i = 0; i < m; ++i )
      {
        Real want = 0;
        for( int k = 0; k < n; ++k )
          want += inv[ k ][ i ] * v[ k ];
        ex.near( z[ i ] / normR, want / normR, tol * norm, "leftInvAx" );
      }
    }
  }
  Dune::FieldMatrix< ct, m, n > L;
  if constexpr( requires { Helper::leftInvA( AT, L ); } )
  {
    ex.near( Helper::leftInvA( AT, L ) / volume, 1, tol, "volume element returned by leftInvA" );
    for( int k = 0; k < n; ++k )
      for( int i = 0; i < m; ++i )
        ex.near( L[ i ][ k ] / normR, inv[ k ][ i ] / normR, tol, "leftInvA" );
  }
  ex.expect( A == A0 && AT == AT0, "the matrix is changed" );
}

template< int m, int n >
void explore ( mc::Explorer &ex, int low, int high )
{
  const int values = high-low+1;
  long total = 1;
  for( int i = 0; i < m*n; ++i )
    total *= values;
  // a case is a block of matrices with common last entries
  const long block = std::min( total, 512l );
  for( long start = 0; start < total; start += block )
    ex.run( mc::str( "%d x %d entries %d to %d from %ld", m, n, low, high, start ), [ & ] {
        for( long code = start; code < std::min( total, start+block ); ++code )
        {
          IMat a( m, std::vector< Int >( n ) );
          long q = code;
          for( int i = 0; i < m; ++i )
            for( int k = 0; k < n; ++k )
            {
              a[ i ][ k ] = low + q % values;
              q /= values;
            }
          check< double, m, n >( ex, a, 0 );
          check< double, m, n >( ex, a, -40 );
          check< double, m, n >( ex, a, 40 );
          check< float, m, n >( ex, a, 0 );
        }
      } );
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< 1, 1 >( ex, -9, 9 );
  explore< 1, 2 >( ex, -6, 6 );
  explore< 1, 3 >( ex, -4, 4 );
  explore< 1, 4 >( ex, -3, 3 );
  explore< 2, 2 >( ex, -3, 3 );
  explore< 2, 3 >( ex, t ? -3 : -2, t ? 3 : 2 );
  explore< 2, 4 >( ex, -2, 2 );
  explore< 3, 3 >( ex, t ? -2 : -1, 2 );
  explore< 3, 4 >( ex, -1, 1 );
  explore< 4, 4 >( ex, 0, 1 );
  return ex.finish();
}
