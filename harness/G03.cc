// Multilinear geometries: forward map, derivatives, inverse map.
#include <array>
#include <functional>
#include <dune/geometry/multilineargeometry.hh>
#include "corners.hh"

using Dune::GeometryType;
using namespace geocheck;

// corner storage in an array
template< class ct >
struct ArrayTraits : Dune::MultiLinearGeometryTraits< ct >
{
  template< int mydim, int cdim >
  struct CornerStorage { typedef std::array< Dune::FieldVector< ct, cdim >, (1 << mydim) > Type; };
};
// corners held elsewhere
template< class ct >
struct RefTraits : Dune::MultiLinearGeometryTraits< ct >
{
  template< int mydim, int cdim >
  struct CornerStorage { typedef std::reference_wrapper< const std::vector< Dune::FieldVector< ct, cdim > > > Type; };
};
// one type only
template< class ct, unsigned id, int d >
struct SingleTraits : Dune::MultiLinearGeometryTraits< ct >
{
  template< int dim >
  struct hasSingleGeometryType
  {
    static const bool v = (dim == d);
    static const unsigned int topologyId = id;
  };
};

#ifndef PART
#define PART 0
#endif

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, int alphabet, bool single, long long spacing, bool inverse )
{
  staticFor< (1 << dim) >( [ & ] ( auto wc ) {
      constexpr unsigned w = decltype( wc )::value;
      auto pts = points( dim, w, spacing );
      if( !inverse )
        for( const Vec &u : nearTip( dim, w, std::numeric_limits< ct >::digits > 30 ? 20 : 10 ) )
          pts.push_back( u );
      family::forAll( dim, w, cdim, alphabet, single, [ & ] ( const family::Config &c ) {
          ex.run( std::string( inverse ? "inverse " : "multilinear " ) + ctName + " " + c.key, [ & ] {
              Spec s = family::spec( dim, w, cdim, c, std::numeric_limits< ct >::epsilon() );
              s.local = inverse;
              s.jacobians = !inverse;
              const auto corners = family::corners< ct, cdim >( c );
              std::array< Dune::FieldVector< ct, cdim >, (1 << dim) > store;
              for( std::size_t i = 0; i < corners.size(); ++i )
                store[ i ] = corners[ i ];
              const GeometryType gt( w, dim );
              const Dune::MultiLinearGeometry< ct, dim, cdim > a( gt, corners );
              const Dune::MultiLinearGeometry< ct, dim, cdim, ArrayTraits< ct > > b( Dune::referenceElement< ct, dim >( gt ), store );
              const Dune::MultiLinearGeometry< ct, dim, cdim, RefTraits< ct > > d( gt, std::cref( corners ) );
              const Dune::MultiLinearGeometry< ct, dim, cdim, SingleTraits< ct, w, dim > > e( gt, corners );
              checkFrame( ex, a, s );
              checkFrame( ex, b, s );
              checkFrame( ex, d, s );
              checkFrame( ex, e, s );
              int n = 0;
              for( const Vec &u : pts )
              {
                checkPoint( ex, a, s, u );
                if( n % 3 == 0 )
                  checkPoint( ex, b, s, u );
                else if( n % 3 == 1 )
                  checkPoint( ex, d, s, u );
                else
                  checkPoint( ex, e, s, u );
                ++n;
              }
              if( s.affine )
                ex.count( "affine configurations" );
              // the inverse Jacobian knows its own determinant
              if( !inverse )
                for( const Vec &u : pts )
                {
                  Dune::FieldVector< ct, dim > x;
                  for( int k = 0; k < dim; ++k )
                    x[ k ] = ct( u[ k ] );
                  const ct mu = a.integrationElement( x );
                  if( !(mu > ct( 1 ) / 1024) )
                    continue;
                  const auto jit = a.jacobianInverseTransposed( x );
                  ex.near( jit.detInv(), Real( mu ), 1024 * s.tol * Real( mu ), "detInv() of the inverse Jacobian" );
                  ex.near( jit.det(), Real( 1 ) / Real( mu ), 1024 * s.tol / Real( mu ), "det() of the inverse Jacobian" );
                }
            } );
        } );
    } );
}

void part0 ( mc::Explorer &ex, bool t, bool inverse );
void part1 ( mc::Explorer &ex, bool t, bool inverse );
void part2 ( mc::Explorer &ex, bool t, bool inverse );
void part3 ( mc::Explorer &ex, bool t, bool inverse );

#if PART == 0
void part0 ( mc::Explorer &ex, bool t, bool inverse )
{
  explore< double, 0, 2 >( ex, "double", 3, false, 1, inverse );
  explore< double, 1, 1 >( ex, "double", 3, false, 8, inverse );
  explore< double, 1, 2 >( ex, "double", 3, false, 8, inverse );
  explore< double, 1, 3 >( ex, "double", 3, false, 8, inverse );
  explore< double, 2, 2 >( ex, "double", t ? 4 : 3, false, 8, inverse );
  explore< double, 2, 3 >( ex, "double", t ? 4 : 3, false, 8, inverse );
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  const bool inverse = (ex.param( "mode" ) == "inverse");
  part0( ex, t, inverse );
  part1( ex, t, inverse );
  part2( ex, t, inverse );
  part3( ex, t, inverse );
  return ex.finish();
}
#elif PART == 1
void part1 ( mc::Explorer &ex, bool t, bool inverse )
{
  explore< double, 3, 3 >( ex, "double", 3, false, t ? 8 : 4, inverse );
  explore< double, 3, 4 >( ex, "double", 2, false, t ? 4 : 2, inverse );
}
#elif PART == 2
void part2 ( mc::Explorer &ex, bool t, bool inverse )
{
  explore< double, 4, 4 >( ex, "double", 2, true, 2, inverse );
}
#else
void part3 ( mc::Explorer &ex, bool t, bool inverse )
{
  explore< float, 2, 2 >( ex, "float", 2, false, 4, inverse );
  explore< float, 2, 3 >( ex, "float", 2, false, 4, inverse );
  explore< float, 3, 3 >( ex, "float", 2, true, 2, inverse );
}
#endif
