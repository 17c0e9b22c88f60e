// Affine geometries.
#include <array>
#include <vector>
#include <dune/geometry/affinegeometry.hh>
#include "geocheck.hh"

using Dune::GeometryType;
using namespace geocheck;

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, int lo, int hi, long long spacing, const std::vector< unsigned > &only = {} )
{
  typedef Dune::AffineGeometry< ct, dim, cdim > Geo;
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    if( !only.empty() && std::find( only.begin(), only.end(), w ) == only.end() )
      continue;
    const model::Cell &m = model::cell( dim, w );
    const auto pts = pointsAndOutside( dim, w, spacing );
    forAllFullRank( cdim, dim, lo, hi, [ & ] ( const Mat &integers, const std::vector< int > &e, long ) {
        // not representable with few digits
        Mat A = integers;
        for( auto &row : A )
          for( Real &v : row )
            v *= 1.1L;
        std::string key = mc::str( "affine %s %u/%d in %d matrix", ctName, w, dim, cdim );
        for( int v : e )
          key += mc::str( " %d", v );
        ex.run( key, [ & ] {
            Vec o( cdim );
            for( int k = 0; k < cdim; ++k )
              o[ k ] = Real( (k*5 + 3) % 7 - 3 ) / 3;
            Spec s;
            s.dim = dim; s.cdim = cdim; s.id = w;
            s.tol = 64 * std::numeric_limits< ct >::epsilon();
            s.map = [ & ] ( const Vec &u ) {
                MapValue r;
                r.value = o;
                r.jac = A;
                for( int i = 0; i < cdim; ++i )
                  for( int j = 0; j < dim; ++j )
                    r.value[ i ] += A[ i ][ j ] * u[ j ];
                return r;
              };
            Dune::FieldVector< ct, cdim > origin;
            Dune::FieldMatrix< ct, dim, cdim > jt;
            for( int i = 0; i < cdim; ++i )
            {
              origin[ i ] = ct( o[ i ] );
              for( int j = 0; j < dim; ++j )
                jt[ j ][ i ] = ct( A[ i ][ j ] );
            }
            std::vector< Dune::FieldVector< ct, cdim > > corners;
            for( const model::IVec &c : m.corners )
            {
              const MapValue y = s.map( Vec( c.begin(), c.end() ) );
              Dune::FieldVector< ct, cdim > z;
              for( int i = 0; i < cdim; ++i )
                z[ i ] = ct( y.value[ i ] );
              corners.push_back( z );
            }
            const GeometryType gt( w, dim );
            const auto re = Dune::referenceElement< ct, dim >( gt );
            const Geo a( gt, origin, jt ), b( re, origin, jt ), c( gt, corners ), d( re, corners );
            Geo assigned;
            assigned = c;
            const Geo copied( a );
            int n = 0;
            for( const Geo *g : { &a, &c, static_cast< const Geo * >( &assigned ) } )
            {
              checkFrame( ex, *g, s );
              if( n++ < 2 )
                for( const Vec &u : pts )
                  checkPoint( ex, *g, s, u );
            }
            for( const Geo *g : { &b, &d, &copied } )
            {
              checkFrame( ex, *g, s );
              checkPoint( ex, *g, s, pts.back() );
            }
            // points that are not in the image: the closest one is found
            if constexpr( dim > 0 )
            {
              const Mat inv = model::pseudoInverse( A, cdim, dim );
              for( int k = 0; k < cdim; ++k )
              {
                Dune::FieldVector< ct, cdim > y = origin;
                y[ k ] += ct( 1 );
                const auto x = a.local( y );
                for( int i = 0; i < dim; ++i )
                  ex.near( x[ i ], inv[ i ][ k ], 256 * s.tol * scaleOf( inv ) * scaleOf( inv ), "local() of a point off the image" );
              }
            }
          } );
      } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< double, 0, 0 >( ex, "double", 0, 0, 1 );
  explore< double, 0, 1 >( ex, "double", 0, 0, 1 );
  explore< double, 0, 2 >( ex, "double", 0, 0, 1 );
  explore< double, 0, 3 >( ex, "double", 0, 0, 1 );
  explore< double, 1, 1 >( ex, "double", -3, 3, 8 );
  explore< double, 1, 2 >( ex, "double", -3, 3, 8 );
  explore< double, 1, 3 >( ex, "double", -2, 2, 8 );
  explore< double, 2, 2 >( ex, "double", t ? -5 : -3, t ? 5 : 3, 4 );
  explore< double, 2, 3 >( ex, "double", t ? -2 : -1, t ? 2 : 1, 4 );
  explore< double, 2, 4 >( ex, "double", -1, 1, 2 );
  explore< double, 3, 3 >( ex, "double", -1, 1, t ? 4 : 2 );
  explore< double, 3, 4 >( ex, "double", t ? -1 : 0, 1, 1 );
  // simplex, cube, and a cone over a prismatic cell
  explore< double, 4, 4 >( ex, "double", 0, 1, 1, t ? std::vector< unsigned >{} : std::vector< unsigned >{ 0, 6, 15 } );
  explore< float, 1, 2 >( ex, "float", -2, 2, 4 );
  explore< float, 2, 2 >( ex, "float", -1, 1, 4 );
  explore< float, 2, 3 >( ex, "float", 0, 1, 4 );
  explore< float, 3, 3 >( ex, "float", 0, 1, 2 );
  explore< long double, 2, 3 >( ex, "long double", 0, 1, 4 );
  explore< long double, 3, 3 >( ex, "long double", 0, 1, 2 );
  return ex.finish();
}
