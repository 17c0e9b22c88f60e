// Geometries parametrised by local finite elements.
#include <dune/geometry/localfiniteelementgeometry.hh>
#include "curvedcheck.hh"

// move the nodes of an element: every subset if there are at most 'limit' nodes, otherwise every single node and every pair
template< class F >
static void forAllNodes ( int n, int limit, F f )
{
  if( n <= limit )
  {
    for( unsigned s = 0; s < (1u << n); ++s )
    {
      std::vector< int > e( n );
      for( int i = 0; i < n; ++i )
        e[ i ] = (s >> i) & 1u;
      f( e );
    }
    return;
  }
  f( std::vector< int >( n, 0 ) );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
    {
      std::vector< int > e( n, 0 );
      e[ i ] = 1;
      if( j != i )
        e[ j ] = 2;
      f( e );
    }
}

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, unsigned w, char space, int order, int limit, long long spacing )
{
  typedef Element< ct, dim > LFE;
  typedef Dune::LocalFiniteElementGeometry< LFE, cdim > Geo;
  const LFE lfe = (space == 'M' ? LFE::monomials( 'P', order ) : LFE::lagrange( space, w, order ));
  const auto pts = points( dim, w, spacing );
  const auto B = family::bases( cdim, dim );
  const int n = int( lfe.size() );
  const GeometryType gt( w, dim );
  for( int b = 0; b < 2; ++b )
    forAllNodes( n, limit, [ & ] ( const std::vector< int > &e ) {
        std::string key = mode + mc::str( " element %s %u/%d in %d %c%d base %d moved ", ctName, w, dim, cdim, space, order, b );
        for( int v : e )
          key += char( '0' + v );
        ex.run( key, [ & ] {
            std::vector< Vec > coeff;
            for( int i = 0; i < n; ++i )
            {
              Vec y = family::displacement( e[ i ], cdim );
              for( int c = 0; c < cdim; ++c )
              {
                if( space != 'M' )
                {
                  if( order > 1 )
                    y[ c ] /= (order == 2 ? 2 : 6) * (n >= 9 && n <= limit ? 2 : 1);
                  y[ c ] += Real( c ) / 4;
                  for( int k = 0; k < dim; ++k )
                    y[ c ] += B[ b ][ c ][ k ] * lfe.data->nodes[ i ][ k ];
                }
                else
                {
                  int tot = 0, at = 0;
                  for( int k = 0; k < dim; ++k )
                  {
                    tot += lfe.data->idx[ i ][ k ];
                    if( lfe.data->idx[ i ][ k ] == 1 )
                      at = k;
                  }
                  y[ c ] += (tot == 0 ? Real( c )/4 : (tot == 1 ? B[ b ][ c ][ at ] : Real( 0 )));
                }
              }
              coeff.push_back( y );
            }
            const PolyMap p = lfe.polynomial( coeff, cdim );
            const Real eps = std::numeric_limits< ct >::epsilon();
            Spec s;
            s.dim = dim; s.cdim = cdim; s.id = w;
            s.tol = 4096 * eps;
            s.map = [ & ] ( const Vec &u ) { return p( u ); };
            s.affine = false;
            // a parametrisation of order one may still be affine
            bool affine = false;
            if( dim == 0 )
              affine = true;
            else if( order == 1 )
            {
              std::vector< Vec > Y;
              for( const model::IVec &c : model::cell( dim, w ).corners )
                Y.push_back( p( Vec( c.begin(), c.end() ) ).value );
              affine = affineImages( model::cell( dim, w ), Y, cdim );
            }
            s.affine = affine;
            std::vector< Dune::FieldVector< ct, cdim > > vertices;
            for( const Vec &y : coeff )
            {
              Dune::FieldVector< ct, cdim > z;
              for( int c = 0; c < cdim; ++c )
                z[ c ] = ct( y[ c ] );
              vertices.push_back( z );
            }
            const Geo a( gt, lfe, vertices );
            checkAll( ex, a, s, pts, true );
            ex.expectf( a.order() == order, "order() = %d", a.order() );
            ex.expect( a.coefficients() == vertices, "coefficients()" );
            const Geo d( Dune::referenceElement< ct, dim >( gt ), lfe, vertices );
            Geo assigned;
            assigned = a;
            if( space != 'M' )
            {
              // the same geometry from a parametrisation
              auto param = [ & ] ( const Dune::FieldVector< ct, dim > &x ) {
                  Vec u( dim );
                  for( int k = 0; k < dim; ++k )
                    u[ k ] = x[ k ];
                  const MapValue m = p( u );
                  Dune::FieldVector< ct, cdim > y;
                  for( int c = 0; c < cdim; ++c )
                    y[ c ] = ct( m.value[ c ] );
                  return y;
                };
              const Geo f( Dune::referenceElement< ct, dim >( gt ), lfe, param );
              if( mode == "forward" )
              {
                checkFrame( ex, f, s );
                Spec t = s;
                t.local = false;
                checkPoint( ex, f, t, pts[ pts.size()/2 ] );
              }
            }
            if( mode == "forward" )
            {
              // a copy and an assigned object, and evaluation of two geometries in turn
              checkFrame( ex, assigned, s );
              checkFrame( ex, d, s );
              Spec t = s;
              t.local = false;
              checkPoint( ex, assigned, t, pts[ pts.size()/2 ] );
              checkPoint( ex, d, t, pts[ pts.size()/3 ] );
            }
          } );
      } );
}

void exploreElements ( mc::Explorer &ex )
{
  const bool t = ex.thorough();
  const long long fine = (mode == "inverse" ? 3 : 4);
  const unsigned tri = 0, quad = 2, tet = 0, pyr = 2, pri = 4, hex = 6;
  for( int k : { 1, 2, 3 } )
  {
    explore< double, 1, 1 >( ex, "double", 0, 'P', k, 4, 8 );
    explore< double, 1, 2 >( ex, "double", 0, 'P', k, 4, 8 );
    explore< double, 1, 3 >( ex, "double", 0, 'P', k, 4, 8 );
  }
  explore< double, 2, 2 >( ex, "double", tri, 'P', 1, 4, fine );
  explore< double, 2, 2 >( ex, "double", tri, 'P', 2, 6, fine );
  explore< double, 2, 2 >( ex, "double", tri, 'P', 3, 10, fine );
  explore< double, 2, 2 >( ex, "double", quad, 'Q', 1, 4, fine );
  explore< double, 2, 2 >( ex, "double", quad, 'Q', 2, 9, fine );
  explore< double, 2, 2 >( ex, "double", quad, 'M', 1, 4, fine );
  explore< double, 2, 3 >( ex, "double", tri, 'P', 1, 4, fine );
  explore< double, 2, 3 >( ex, "double", tri, 'P', 2, 6, fine );
  explore< double, 2, 3 >( ex, "double", quad, 'Q', 1, 4, fine );
  explore< double, 2, 3 >( ex, "double", quad, 'Q', 2, t ? 9 : 4, fine );
  explore< double, 3, 3 >( ex, "double", tet, 'P', 1, 4, 2 );
  explore< double, 3, 3 >( ex, "double", tet, 'P', 2, 10, 2 );
  explore< double, 3, 3 >( ex, "double", pri, 'W', 1, 6, 2 );
  explore< double, 3, 3 >( ex, "double", pri, 'W', 2, 4, t ? 4 : 2 );
  explore< double, 3, 3 >( ex, "double", hex, 'Q', 1, 8, 2 );
  explore< double, 3, 3 >( ex, "double", pyr, 'M', 1, 4, 2 );
  explore< double, 3, 3 >( ex, "double", pyr, 'M', 2, 4, 2 );
  explore< double, 3, 3 >( ex, "double", hex, 'Q', 2, 4, 2 );
  explore< double, 3, 3 >( ex, "double", tet, 'P', 3, 4, 2 );
  explore< float, 1, 2 >( ex, "float", 0, 'P', 2, 4, 4 );
  explore< float, 2, 2 >( ex, "float", quad, 'Q', 1, 4, 3 );
  explore< float, 2, 2 >( ex, "float", tri, 'P', 2, 4, 3 );
}
