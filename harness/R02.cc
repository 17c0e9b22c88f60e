// Positions, volumes and outer normals of the reference elements.
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

using Dune::GeometryType;

template< class ct, int dim >
void explore ( mc::Explorer &ex, const char *ctName )
{
  const model::Real tol = 32 * std::numeric_limits< ct >::epsilon();
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const model::Cell &m = model::cell( dim, w );
    const std::vector< model::Vec > X = model::realCorners( m );
    ex.run( mc::str( "element %s %u/%d", ctName, w, dim ), [ & ] {
        const auto r = Dune::referenceElement< ct, dim >( GeometryType( w, dim ) );
        for( int c = 0; c <= dim; ++c )
          for( int i = 0; i < m.size( c ); ++i )
          {
            const auto x = r.position( i, c );
            const model::Vec want = model::cornerMean( X, m.faces[ c ][ i ].verts, dim );
            for( int k = 0; k < dim; ++k )
              ex.near( x[ k ], want[ k ], tol, mc::str( "position(%d,%d)[%d]", i, c, k ).c_str() );
          }
        ex.near( r.volume() * model::Real( model::inverseVolume( dim, w ) ), 1, tol, "volume" );
        if constexpr( dim > 0 )
        {
          std::vector< model::Real > sum( dim, 0 );
          const model::Vec center = model::cornerMean( X, m.faces[ 0 ][ 0 ].verts, dim );
          for( int f = 0; f < m.size( 1 ); ++f )
          {
            const model::Face &face = m.faces[ 1 ][ f ];
            const std::vector< int > fr = model::frame( face );
            std::vector< model::Vec > t;
            for( int k = 1; k < int( fr.size() ); ++k )
            {
              model::Vec v( dim );
              for( int l = 0; l < dim; ++l )
                v[ l ] = X[ fr[ k ] ][ l ] - X[ fr[ 0 ] ][ l ];
              t.push_back( v );
            }
            model::Vec n = model::cross( t, dim );
            model::Real s = 0;
            for( int l = 0; l < dim; ++l )
              s += n[ l ] * (X[ fr[ 0 ] ][ l ] - center[ l ]);
            if( s < 0 )
              for( int l = 0; l < dim; ++l )
                n[ l ] = -n[ l ];
            const auto got = r.integrationOuterNormal( f );
            for( int l = 0; l < dim; ++l )
            {
              ex.near( got[ l ], n[ l ], tol, mc::str( "integrationOuterNormal(%d)[%d]", f, l ).c_str() );
              sum[ l ] += got[ l ] / model::Real( model::inverseVolume( dim-1, face.id ) );
            }
          }
          for( int l = 0; l < dim; ++l )
            ex.near( sum[ l ], 0, 64*tol, "the area weighted outer normals do not cancel" );
        }
      } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  staticFor< 9 >( [ & ] ( auto d ) { if( d < 8 || ex.thorough() ) explore< double, d >( ex, "double" ); } );
  staticFor< 5 >( [ & ] ( auto d ) { explore< float, d >( ex, "float" ); } );
  staticFor< 4 >( [ & ] ( auto d ) { explore< long double, d >( ex, "long double" ); } );
  return ex.finish();
}
