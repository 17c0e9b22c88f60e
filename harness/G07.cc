// Mapped geometries (composition of a mapping and a geometry).
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "curvedcheck.hh"

template< class ct, int dim, int mid, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, bool pairs, long long spacing )
{
  for( unsigned w = 0; w < (1u << dim); w += 2 )
  {
    const auto pts = points( dim, w, spacing );
    std::vector< family::Config > configs;
    family::forAll( dim, w, mid, 2, true, [ & ] ( const family::Config &c ) { configs.push_back( c ); } );
    forAllMaps( mid, cdim, pairs, [ & ] ( const PolyMap &p, const std::string &name, bool linear ) {
        ex.run( mode + mc::str( " mapped %s %u/%d via %d in %d ", ctName, w, dim, mid, cdim ) + name, [ & ] {
            const GeometryType gt( w, dim );
            const PolyFunction< ct, mid, cdim > f( p );
            const Real eps = std::numeric_limits< ct >::epsilon();
            // wrapped geometry: multilinear with each corner of the family moved, or some of them where this is expensive
            const bool every = ex.thorough() || (mode == "forward" && dim <= 2);
            for( std::size_t which = 0; which < configs.size(); ++which )
            {
              if( !every && which != 0 && which != configs.size()/2 && which != configs.size()-1 )
                continue;
              const family::Config &c = configs[ which ];
              Spec s = family::spec( dim, w, mid, c, eps );
              const bool flat = s.affine;
              s.cdim = cdim;
              s.tol = 1024 * eps;
              s.map = compose( p, s.map, cdim, mid, dim );
              s.affine = false;
              const Dune::MultiLinearGeometry< ct, dim, mid > g( gt, family::corners< ct, mid >( c ) );
              const Dune::MappedGeometry geo( f, g );
              // the center of the wrapped geometry is mapped
              checkAll( ex, geo, s, pts, true );
              if( linear && flat )
              {
                s.affine = true;
                const Dune::MappedGeometry geo2( f, g, true );
                checkAll( ex, geo2, s, pts, true );
                const Dune::AffineGeometry< ct, dim, mid > ag( gt, family::corners< ct, mid >( c ) );
                const Dune::MappedGeometry geo3( f, ag, true );
                checkAll( ex, geo3, s, pts, true );
              }
            }
            // wrapped geometry: the reference element itself and its faces
            const auto re = Dune::referenceElement< ct, mid >( Dune::GeometryTypes::cube( mid ) );
            if( model::sameShape( (1u << dim)-1u, w ) )
              for( int i = 0; i < re.size( mid-dim ); ++i )
              {
                const auto g = re.template geometry< mid-dim >( i );
                const model::Face &face = model::cell( mid, (1u << mid)-1u ).faces[ mid-dim ][ i ];
                const auto X = model::realCorners( model::cell( mid, (1u << mid)-1u ) );
                std::vector< Vec > Y;
                for( int v : face.verts )
                  Y.push_back( X[ v ] );
                Spec s;
                s.dim = dim; s.cdim = cdim; s.id = w;
                s.tol = 1024 * eps;
                s.affine = linear;
                s.map = compose( p, [ & ] ( const Vec &u ) { return model::interpolate( dim, w, Y, 0, u.data(), mid ); }, cdim, mid, dim );
                const Dune::MappedGeometry geo( f, g, linear );
                checkAll( ex, geo, s, pts, true );
              }
          } );
      } );
  }
}

void exploreMapped ( mc::Explorer &ex )
{
  const bool t = ex.thorough();
  const long long fine = (mode == "inverse" ? 3 : 4);
  explore< double, 1, 1, 1 >( ex, "double", true, 8 );
  explore< double, 1, 1, 2 >( ex, "double", true, 8 );
  explore< double, 1, 2, 2 >( ex, "double", true, 8 );
  explore< double, 1, 2, 3 >( ex, "double", true, 8 );
  explore< double, 2, 2, 2 >( ex, "double", true, fine );
  explore< double, 2, 2, 3 >( ex, "double", true, fine );
  explore< double, 2, 3, 3 >( ex, "double", true, fine );
  explore< double, 3, 3, 3 >( ex, "double", true, 2 );
  explore< float, 1, 1, 2 >( ex, "float", true, 4 );
  explore< float, 2, 2, 2 >( ex, "float", t, 3 );
}
