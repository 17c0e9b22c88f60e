// Geometries of any size, proportion and place: the answers scale with the cell.
#include <cmath>
#include <vector>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "curved.hh"

using Dune::GeometryType;
using namespace geocheck;

// global coordinates y are stored as 2^e y + offset
struct Frame
{
  std::string name;
  std::vector< int > e;
  Vec offset;
  bool isotropic;
  Real loss;           // growth of the rounding errors
};

static std::vector< Frame > frames ( int dim, int cdim, bool single, bool t )
{
  std::vector< Frame > r;
  const std::vector< int > sizes = (single ? std::vector< int >{ -12, -5, 5, 12 }
                                           : t ? std::vector< int >{ -70, -60, -45, -30, -20, -10, -5, 5, 10, 20, 30, 45, 60, 70 } : std::vector< int >{ -60, -30, -10, 10, 30, 60 });
  for( int k : sizes )
    r.push_back( { mc::str( "size 2^%d", k ), std::vector< int >( cdim, k ), Vec( cdim, 0 ), true, 1 } );
  for( int far : single ? std::vector< int >{ 6 } : std::vector< int >{ 10, 20 } )
    for( int k : single ? std::vector< int >{ 0 } : std::vector< int >{ -10, 0 } )
    {
      Vec o( cdim );
      for( int i = 0; i < cdim; ++i )
        o[ i ] = (i % 2 ? -1 : 1) * std::ldexp( Real( 1 ), far + k );
      r.push_back( { mc::str( "size 2^%d at distance 2^%d", k, far + k ), std::vector< int >( cdim, k ), o, true, std::ldexp( Real( 1 ), far ) } );
    }
  // proportions: only without codimension, where the scaling of the axes commutes with the inverse
  if( dim == cdim && dim > 1 )
  {
    std::vector< int > e( cdim, -1 );
    while( true )
    {
      bool same = true;
      std::string name = "proportions";
      std::vector< int > f;
      for( int v : e )
      {
        same &= (v == e[ 0 ]);
        f.push_back( (single ? 2 : 4) * v );
        name += mc::str( " 2^%d", f.back() );
      }
      if( !same )
        r.push_back( { name, f, Vec( cdim, 0 ), false, single ? Real( 1 << 8 ) : Real( 1 << 16 ) } );
      int k = 0;
      while( k < cdim && ++e[ k ] > 1 )
        e[ k++ ] = -1;
      if( k == cdim )
        break;
    }
  }
  return r;
}

// a geometry seen without the size, proportions and place of its frame
template< class Geo >
struct Seen
{
  static const int mydimension = Geo::mydimension, coorddimension = Geo::coorddimension;
  typedef typename Geo::ctype ctype;
  typedef Dune::FieldVector< ctype, mydimension > LocalCoordinate;
  typedef Dune::FieldVector< ctype, coorddimension > GlobalCoordinate;

  const Geo &g;
  const Frame &f;

  static ctype pow2 ( int k ) { return std::ldexp( ctype( 1 ), k ); }
  int sum () const { int s = 0; if( f.isotropic ) return mydimension * f.e[ 0 ]; for( int k : f.e ) s += k; return s; }

  GlobalCoordinate seen ( const GlobalCoordinate &y ) const
  {
    GlobalCoordinate z;
    for( int i = 0; i < coorddimension; ++i )
      z[ i ] = ctype( (Real( y[ i ] ) - f.offset[ i ]) * std::ldexp( Real( 1 ), -f.e[ i ] ) );
    return z;
  }
  template< int r, int c >
  Dune::FieldMatrix< ctype, r, c > matrix ( const Mat &a, bool rows, int sign ) const
  {
    Dune::FieldMatrix< ctype, r, c > m;
    for( int i = 0; i < r; ++i )
      for( int j = 0; j < c; ++j )
        m[ i ][ j ] = ctype( a[ i ][ j ] ) * pow2( sign * f.e[ rows ? i : j ] );
    return m;
  }

  GeometryType type () const { return g.type(); }
  bool affine () const { return g.affine(); }
  int corners () const { return g.corners(); }
  GlobalCoordinate corner ( int i ) const { return seen( g.corner( i ) ); }
  GlobalCoordinate center () const { return seen( g.center() ); }
  GlobalCoordinate global ( const LocalCoordinate &x ) const { return seen( g.global( x ) ); }
  LocalCoordinate local ( const GlobalCoordinate &y ) const
  {
    GlobalCoordinate z;
    for( int i = 0; i < coorddimension; ++i )
      z[ i ] = ctype( Real( y[ i ] ) * std::ldexp( Real( 1 ), f.e[ i ] ) + f.offset[ i ] );
    return g.local( z );
  }
  ctype integrationElement ( const LocalCoordinate &x ) const { return g.integrationElement( x ) * pow2( -sum() ); }
  ctype volume () const { return g.volume() * pow2( -sum() ); }
  auto jacobianTransposed ( const LocalCoordinate &x ) const { return matrix< mydimension, coorddimension >( dense< ctype, mydimension, coorddimension >( g.jacobianTransposed( x ) ), false, -1 ); }
  auto jacobian ( const LocalCoordinate &x ) const { return matrix< coorddimension, mydimension >( dense< ctype, coorddimension, mydimension >( g.jacobian( x ) ), true, -1 ); }
  auto jacobianInverse ( const LocalCoordinate &x ) const { return matrix< mydimension, coorddimension >( dense< ctype, mydimension, coorddimension >( g.jacobianInverse( x ) ), false, 1 ); }
  auto jacobianInverseTransposed ( const LocalCoordinate &x ) const { return matrix< coorddimension, mydimension >( dense< ctype, coorddimension, mydimension >( g.jacobianInverseTransposed( x ) ), true, 1 ); }
  friend auto referenceElement ( const Seen &s ) { return referenceElement( s.g ); }
};

template< class Geo >
void compare ( mc::Explorer &ex, const Geo &g, const Frame &f, const Spec &s, const std::vector< Vec > &pts )
{
  const Seen< Geo > seen{ g, f };
  checkFrame( ex, seen, s );
  for( const Vec &u : pts )
    checkPoint( ex, seen, s, u );
}

// the map of a frame as a function
template< class ct, int n >
struct Place
{
  std::vector< int > e;
  Vec offset;
  typedef Dune::FieldVector< ct, n > Point;
  Point operator() ( const Point &y ) const
  {
    Point z;
    for( int i = 0; i < n; ++i )
      z[ i ] = ct( std::ldexp( Real( y[ i ] ), e[ i ] ) + offset[ i ] );
    return z;
  }
  friend auto derivative ( const Place &p )
  {
    return [ e = p.e ] ( const Point & ) {
        Dune::FieldMatrix< ct, n, n > m( 0 );
        for( int i = 0; i < n; ++i )
          m[ i ][ i ] = std::ldexp( ct( 1 ), e[ i ] );
        return m;
      };
  }
};

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, bool single, long long spacing )
{
  const auto F = frames( dim, cdim, std::is_same< ct, float >::value, ex.thorough() );
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const auto pts = points( dim, w, spacing );
    family::forAll( dim, w, cdim, 2, single, [ & ] ( const family::Config &c ) {
        for( const Frame &f : F )
          ex.run( std::string( ctName ) + " " + c.key + " " + f.name, [ & ] {
              Spec s = family::spec( dim, w, cdim, c, std::numeric_limits< ct >::epsilon() );
              s.tol *= f.loss;
              s.localTol = std::max( s.localTol, 8 * s.tol );
              std::vector< Dune::FieldVector< ct, cdim > > corners;
              for( const Vec &y : c.Y )
              {
                Dune::FieldVector< ct, cdim > z;
                for( int i = 0; i < cdim; ++i )
                  z[ i ] = ct( y[ i ] * std::ldexp( Real( 1 ), f.e[ i ] ) + f.offset[ i ] );
                corners.push_back( z );
              }
              const GeometryType gt( w, dim );
              const Dune::MultiLinearGeometry< ct, dim, cdim > a( gt, corners );
              const Dune::CachedMultiLinearGeometry< ct, dim, cdim > b( gt, corners );
              compare( ex, a, f, s, pts );
              compare( ex, b, f, s, pts );
              if( s.affine )
              {
                const Dune::AffineGeometry< ct, dim, cdim > d( gt, corners );
                compare( ex, d, f, s, pts );
                ex.count( "affine configurations" );
              }
              // inversion and integration of curved geometries have absolute tolerances, everything else scales
              s.local = false;
              const Dune::MultiLinearGeometry< ct, dim, cdim > unit( gt, family::corners< ct, cdim >( c ) );
              const Dune::MappedGeometry mapped( Place< ct, cdim >{ f.e, f.offset }, unit, s.affine );
              compare( ex, mapped, f, s, pts );
              const char space = gt.isSimplex() ? 'P' : gt.isCube() ? 'Q' : gt.isPrism() ? 'W' : 0;
              if( space )
              {
                const auto lfe = curved::Element< ct, dim >::lagrange( space, w, 1 );
                std::vector< Dune::FieldVector< ct, cdim > > nodes;
                for( const Vec &u : lfe.data->nodes )
                  for( std::size_t v = 0; v < corners.size(); ++v )
                    if( std::equal( u.begin(), u.end(), model::cell( dim, w ).corners[ v ].begin() ) )
                      nodes.push_back( corners[ v ] );
                const Dune::LocalFiniteElementGeometry< curved::Element< ct, dim >, cdim > element( gt, lfe, nodes );
                compare( ex, element, f, s, pts );
                ex.count( "element geometries" );
              }
            } );
      } );
  }
}

// boxes with any set of axes
template< class ct, int dim, int cdim >
void boxes ( mc::Explorer &ex, const char *ctName )
{
  typedef Dune::AxisAlignedCubeGeometry< ct, dim, cdim > Geo;
  const auto F = frames( dim, cdim, std::is_same< ct, float >::value, ex.thorough() );
  const unsigned w = (1u << dim)-1;
  const auto pts = points( dim, w, 4 );
  for( unsigned axes = 0; axes < (1u << cdim); ++axes )
  {
    if( __builtin_popcount( axes ) != dim )
      continue;
    for( int shape = 0; shape < (1 << cdim); ++shape )
      for( const Frame &f : F )
        ex.run( mc::str( "box %s %d in %d axes %u shape %d ", ctName, dim, cdim, axes, shape ) + f.name, [ & ] {
            Vec lo( cdim ), hi( cdim );
            std::bitset< cdim > which;
            std::vector< int > axis;
            for( int i = 0; i < cdim; ++i )
            {
              lo[ i ] = (i % 2 ? 0.75L : -0.5L);
              hi[ i ] = lo[ i ] + ((axes >> i) & 1u ? ((shape >> i) & 1 ? 2.5L : 0.625L) : 0);
              which[ i ] = (axes >> i) & 1u;
              if( which[ i ] )
                axis.push_back( i );
            }
            Spec s;
            s.dim = dim; s.cdim = cdim; s.id = w;
            s.tol = 64 * std::numeric_limits< ct >::epsilon() * f.loss;
            s.map = [ & ] ( const Vec &u ) {
                MapValue r;
                r.value = lo;
                r.jac = model::matrix( cdim, dim );
                for( int k = 0; k < dim; ++k )
                {
                  r.jac[ axis[ k ] ][ k ] = hi[ axis[ k ] ] - lo[ axis[ k ] ];
                  r.value[ axis[ k ] ] += u[ k ] * r.jac[ axis[ k ] ][ k ];
                }
                return r;
              };
            Dune::FieldVector< ct, cdim > a, b;
            for( int i = 0; i < cdim; ++i )
            {
              a[ i ] = ct( lo[ i ] * std::ldexp( Real( 1 ), f.e[ i ] ) + f.offset[ i ] );
              b[ i ] = ct( hi[ i ] * std::ldexp( Real( 1 ), f.e[ i ] ) + f.offset[ i ] );
            }
            compare( ex, Geo( a, b, which ), f, s, pts );
            if constexpr( dim == cdim )
              compare( ex, Geo( a, b ), f, s, pts );
          } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< double, 1, 1 >( ex, "double", false, 4 );
  explore< double, 1, 2 >( ex, "double", false, 4 );
  explore< double, 1, 3 >( ex, "double", false, 4 );
  explore< double, 2, 2 >( ex, "double", false, 2 );
  explore< double, 2, 3 >( ex, "double", false, 2 );
  explore< double, 3, 3 >( ex, "double", !t, 2 );
  explore< float, 1, 2 >( ex, "float", false, 2 );
  explore< float, 2, 2 >( ex, "float", true, 2 );
  boxes< double, 1, 1 >( ex, "double" );
  boxes< double, 1, 2 >( ex, "double" );
  boxes< double, 1, 3 >( ex, "double" );
  boxes< double, 2, 2 >( ex, "double" );
  boxes< double, 2, 3 >( ex, "double" );
  boxes< double, 3, 3 >( ex, "double" );
  boxes< float, 2, 2 >( ex, "float" );
  return ex.finish();
}
