// Axis-aligned cube geometries.
#include <bitset>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include "geocheck.hh"

using namespace geocheck;

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName )
{
  typedef Dune::AxisAlignedCubeGeometry< ct, dim, cdim > Geo;
  // per coordinate: lower end and extent
  const Real lower[] = { 0, -1.5L, 3.1L };
  const Real extent[] = { 1, 0.25L, 7.0L/3 };
  // off the axes the upper corner does not matter
  const Real ignored[] = { 1, 0, -2 };
  const auto pts = pointsAndOutside( dim, (1u << dim) - 1u, dim <= 2 ? 4 : 2 );
  for( unsigned axes = 0; axes < (1u << cdim); ++axes )
  {
    if( int( std::bitset< 32 >( axes ).count() ) != dim )
      continue;
    long n = 1;
    for( int k = 0; k < cdim; ++k )
      n *= 9;
    for( long code = 0; code < n; ++code )
    {
      ex.run( mc::str( "cube %s %d in %d axes %u box %ld", ctName, dim, cdim, axes, code ), [ & ] {
          Vec lo( cdim ), up( cdim );
          long q = code;
          for( int k = 0; k < cdim; ++k )
          {
            lo[ k ] = ct( lower[ q % 3 ] + k ); q /= 3;
            up[ k ] = ct( lo[ k ] + ((axes >> k) & 1u ? extent : ignored)[ q % 3 ] ); q /= 3;
          }
          Spec s;
          s.dim = dim; s.cdim = cdim; s.id = (1u << dim) - 1u;
          s.tol = 64 * std::numeric_limits< ct >::epsilon();
          s.map = [ & ] ( const Vec &u ) {
              MapValue r;
              r.value = lo;
              r.jac = model::matrix( cdim, dim );
              int l = 0;
              for( int k = 0; k < cdim; ++k )
                if( (axes >> k) & 1u )
                {
                  r.value[ k ] += u[ l ] * (up[ k ] - lo[ k ]);
                  r.jac[ k ][ l++ ] = up[ k ] - lo[ k ];
                }
              return r;
            };
          Dune::FieldVector< ct, cdim > a, b;
          for( int k = 0; k < cdim; ++k )
          {
            a[ k ] = ct( lo[ k ] );
            b[ k ] = ct( up[ k ] );
          }
          std::vector< Geo > geos;
          geos.emplace_back( a, b, std::bitset< cdim >( axes ) );
          if constexpr( dim == cdim )
            geos.emplace_back( a, b );
          if constexpr( dim == 0 )
            geos.emplace_back( a );
          Geo assigned;
          assigned = geos[ 0 ];
          geos.push_back( assigned );
          for( const Geo &g : geos )
          {
            checkFrame( ex, g, s );
            for( const Vec &u : pts )
              checkPoint( ex, g, s, u );
            // points off the cube: coordinates along the axes decide
            if constexpr( dim > 0 )
            {
              auto y = g.corner( 0 );
              for( int k = 0; k < cdim; ++k )
                y[ k ] += ct( 0.5 );
              const auto x = g.local( y );
              int l = 0;
              for( int k = 0; k < cdim; ++k )
                if( (axes >> k) & 1u )
                {
                  ex.near( x[ l ], 0.5L / (up[ k ] - lo[ k ]), 4 * s.tol, "local() of a point off the cube" );
                  ++l;
                }
            }
          }
        } );
    }
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  explore< double, 0, 1 >( ex, "double" );
  explore< double, 1, 1 >( ex, "double" );
  explore< double, 0, 2 >( ex, "double" );
  explore< double, 1, 2 >( ex, "double" );
  explore< double, 2, 2 >( ex, "double" );
  explore< double, 0, 3 >( ex, "double" );
  explore< double, 1, 3 >( ex, "double" );
  explore< double, 2, 3 >( ex, "double" );
  explore< double, 3, 3 >( ex, "double" );
  explore< float, 1, 2 >( ex, "float" );
  explore< float, 2, 2 >( ex, "float" );
  explore< float, 2, 3 >( ex, "float" );
  explore< double, 1, 4 >( ex, "double" );
  explore< double, 2, 4 >( ex, "double" );
  explore< double, 3, 4 >( ex, "double" );
  explore< double, 4, 4 >( ex, "double" );
  if( ex.thorough() )
  {
    explore< double, 2, 5 >( ex, "double" );
    explore< double, 5, 5 >( ex, "double" );
  }
  return ex.finish();
}
