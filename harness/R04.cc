// Embeddings of the sub-entities into the reference elements.
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

using Dune::GeometryType;

template< class ct, int dim, int codim >
void exploreCodim ( mc::Explorer &ex, const char *ctName, unsigned w )
{
  constexpr int mydim = dim - codim;
  const model::Real tol = 64 * std::numeric_limits< ct >::epsilon();
  const model::Cell &m = model::cell( dim, w );
  const std::vector< model::Vec > X = model::realCorners( m );
  for( int i = 0; i < m.size( codim ); ++i )
    ex.run( mc::str( "embedding %s %u/%d codim %d number %d", ctName, w, dim, codim, i ), [ & ] {
        const model::Face &f = m.faces[ codim ][ i ];
        const model::Cell &fm = model::cell( f.dim, f.id );
        std::vector< model::Vec > Y;
        for( int v : f.verts )
          Y.push_back( X[ v ] );

        const auto r = Dune::referenceElement< ct, dim >( GeometryType( w, dim ) );
        const auto geo = r.template geometry< codim >( i );
        ex.expect( geo.affine(), "affine()" );
        ex.expectf( int( geo.type().dim() ) == mydim && model::sameShape( geo.type().id(), f.id ), "type() = %u", geo.type().id() );
        if( !ex.expectf( geo.corners() == int( Y.size() ), "corners() = %d", geo.corners() ) )
          return;
        for( int v = 0; v < geo.corners(); ++v )
        {
          const auto y = geo.corner( v );
          for( int k = 0; k < dim; ++k )
            ex.near( y[ k ], Y[ v ][ k ], tol, mc::str( "corner(%d)[%d]", v, k ).c_str() );
        }
        {
          std::vector< int > allv;
          for( std::size_t v = 0; v < Y.size(); ++v )
            allv.push_back( int( v ) );
          const auto y = geo.center();
          const model::Vec want = model::cornerMean( Y, allv, dim );
          for( int k = 0; k < dim; ++k )
            ex.near( y[ k ], want[ k ], tol, "center" );
        }
        const long long s = (mydim <= 2 ? 4 : 2);
        for( const model::IVec &p : model::latticePoints( mydim, f.id, s ) )
        {
          Dune::FieldVector< ct, mydim > x;
          model::Vec u( mydim );
          bool tip = false;
          for( int k = 0; k < mydim; ++k )
          {
            x[ k ] = ct( p[ k ] ) / ct( s );
            u[ k ] = model::Real( p[ k ] ) / model::Real( s );
          }
          (void)tip;
          const model::MapValue want = model::interpolate( mydim, f.id, Y, 0, u.data(), dim );
          const auto y = geo.global( x );
          for( int k = 0; k < dim; ++k )
            ex.near( y[ k ], want.value[ k ], tol, "global" );
          const auto jt = geo.jacobianTransposed( x );
          const auto j = geo.jacobian( x );
          for( int k = 0; k < dim; ++k )
            for( int l = 0; l < mydim; ++l )
            {
              ex.near( jt[ l ][ k ], want.jac[ k ][ l ], tol, "jacobianTransposed" );
              ex.near( j[ k ][ l ], want.jac[ k ][ l ], tol, "jacobian" );
            }
          const model::Real ie = std::sqrt( model::gram( want.jac, dim, mydim ) );
          ex.near( geo.integrationElement( x ), ie, tol, "integrationElement" );
          ex.near( geo.volume(), ie / model::Real( model::inverseVolume( mydim, f.id ) ), tol, "volume" );
          const model::Mat inv = model::pseudoInverse( want.jac, dim, mydim );
          const auto ji = geo.jacobianInverse( x );
          const auto jit = geo.jacobianInverseTransposed( x );
          for( int k = 0; k < mydim; ++k )
            for( int l = 0; l < dim; ++l )
            {
              ex.near( ji[ k ][ l ], inv[ k ][ l ], tol, "jacobianInverse" );
              ex.near( jit[ l ][ k ], inv[ k ][ l ], tol, "jacobianInverseTransposed" );
            }
          const auto back = geo.local( y );
          for( int k = 0; k < mydim; ++k )
            ex.near( back[ k ], u[ k ], tol, "local(global(x))" );
          ex.expect( r.checkInside( y ), "the image of a point of the sub-entity lies in the element" );
        }
        // the embedding maps the sub-entities of the sub-entity to those numbered by the element
        const auto fr = Dune::referenceElement< ct, mydim >( geo.type() );
        for( int cc = 0; cc <= mydim; ++cc )
          for( int ii = 0; ii < fm.size( cc ); ++ii )
          {
            const int n = r.subEntity( i, codim, ii, codim+cc );
            const auto a = geo.global( fr.position( ii, cc ) );
            const auto b = r.position( n, codim+cc );
            for( int k = 0; k < dim; ++k )
              ex.near( a[ k ], b[ k ], tol, mc::str( "image of sub-entity (%d,%d) and position(%d,%d)", ii, cc, n, codim+cc ).c_str() );
          }
      } );
}

template< class ct, int dim >
void explore ( mc::Explorer &ex, const char *ctName )
{
  for( unsigned w = 0; w < (1u << dim); ++w )
    staticFor< dim+1 >( [ & ] ( auto c ) { exploreCodim< ct, dim, c >( ex, ctName, w ); } );
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  staticFor< 7 >( [ & ] ( auto d ) { if( d < 6 || ex.thorough() ) explore< double, d >( ex, "double" ); } );
  staticFor< 4 >( [ & ] ( auto d ) { explore< float, d >( ex, "float" ); } );
  return ex.finish();
}
