// Membership test of the reference elements on a lattice around the element.
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

using Dune::GeometryType;

template< class ct, int dim >
void explore ( mc::Explorer &ex, const char *ctName, long long s, long long margin )
{
  // offsets that must be tolerated (rounding) and that must not
  const ct tiny = 4 * std::numeric_limits< ct >::epsilon();
  const ct small = ct( 2000 ) * std::numeric_limits< ct >::epsilon();
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const model::Cell &m = model::cell( dim, w );
    ex.run( mc::str( "inside %s %u/%d lattice 1/%lld", ctName, w, dim, s ), [ & ] {
        const auto r = Dune::referenceElement< ct, dim >( GeometryType( w, dim ) );
        // the facets as linear forms n.x <= b, from the model's vertices
        struct Form { model::IVec n; long long b; };
        std::vector< Form > forms;
        if( dim > 0 )
        {
          const auto X = model::realCorners( m );
          const model::Vec center = model::cornerMean( X, m.faces[ 0 ][ 0 ].verts, dim );
          for( const model::Face &face : m.faces[ std::min( 1, dim ) ] )
          {
            const std::vector< int > fr = model::frame( face );
            std::vector< model::Vec > t;
            for( int k = 1; k < int( fr.size() ); ++k )
            {
              model::Vec v( dim );
              for( int l = 0; l < dim; ++l )
                v[ l ] = X[ fr[ k ] ][ l ] - X[ fr[ 0 ] ][ l ];
              t.push_back( v );
            }
            model::Vec n = model::cross( t, dim );
            model::Real d = 0;
            for( int l = 0; l < dim; ++l )
              d += n[ l ] * (X[ fr[ 0 ] ][ l ] - center[ l ]);
            Form f{ model::IVec( dim ), 0 };
            for( int l = 0; l < dim; ++l )
            {
              f.n[ l ] = std::llround( d < 0 ? -n[ l ] : n[ l ] );
              f.b += f.n[ l ] * m.corners[ fr[ 0 ] ][ l ];
            }
            forms.push_back( f );
          }
        }
        model::IVec x( dim, -margin );
        long long in = 0, out = 0;
        while( true )
        {
          Dune::FieldVector< ct, dim > p;
          for( int k = 0; k < dim; ++k )
            p[ k ] = ct( x[ k ] ) / ct( s );
          const bool want = model::inside( dim, w, x.data(), s );
          // the recursive membership and the half-space description agree
          bool half = true;
          std::vector< const Form * > active;
          for( const Form &f : forms )
          {
            long long v = 0;
            for( int k = 0; k < dim; ++k )
              v += f.n[ k ] * x[ k ];
            half &= (v <= f.b * s);
            if( v == f.b * s )
              active.push_back( &f );
          }
          if( half != want )
            ex.fail( "model is inconsistent" );
          const bool got = r.checkInside( p );
          (want ? in : out)++;
          if( !ex.expect( got == want, "checkInside of a lattice point" ) )
          {
            std::string q;
            for( int k = 0; k < dim; ++k )
              q += mc::str( " %lld/%lld", x[ k ], s );
            ex.fail( "checkInside(%s ) = %d", q.c_str(), int( got ) );
          }
          // boundary points: rounding is forgiven, real distances are not
          if( want )
            for( const Form *f : active )
            {
              model::Real nn = 0;
              for( int k = 0; k < dim; ++k )
                nn += f->n[ k ] * f->n[ k ];
              Dune::FieldVector< ct, dim > a = p, b = p;
              for( int k = 0; k < dim; ++k )
              {
                a[ k ] += tiny * ct( f->n[ k ] ) / ct( nn );
                b[ k ] += small * ct( f->n[ k ] );
              }
              ex.expect( r.checkInside( a ), "a boundary point moved by a rounding error is rejected" );
              ex.expect( !r.checkInside( b ), "a point outside of a face is accepted" );
            }
          int k = 0;
          while( k < dim && ++x[ k ] > s + margin )
            x[ k++ ] = -margin;
          if( k == dim )
            break;
        }
        ex.count( "inside", in );
        ex.count( "outside", out );
        ex.outcome( mc::str( "%lld %lld", in, out ) );
      } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  explore< double, 0 >( ex, "double", 4, 2 );
  explore< double, 1 >( ex, "double", 64, 64 );
  explore< double, 2 >( ex, "double", ex.thorough() ? 256 : 64, 8 );
  explore< double, 3 >( ex, "double", ex.thorough() ? 64 : 32, 3 );
  explore< double, 4 >( ex, "double", ex.thorough() ? 16 : 8, 4 );
  explore< double, 5 >( ex, "double", ex.thorough() ? 8 : 4, 3 );
  explore< double, 6 >( ex, "double", 4, ex.thorough() ? 2 : 1 );
  if( ex.thorough() )
    explore< double, 7 >( ex, "double", 2, 1 );
  explore< double, 2 >( ex, "double", 12, 12 );
  explore< double, 3 >( ex, "double", 6, 7 );
  explore< float, 1 >( ex, "float", 16, 16 );
  explore< float, 2 >( ex, "float", 16, 4 );
  explore< float, 3 >( ex, "float", 8, 2 );
  explore< long double, 2 >( ex, "long double", 16, 4 );
  explore< long double, 3 >( ex, "long double", 8, 2 );
  return ex.finish();
}
