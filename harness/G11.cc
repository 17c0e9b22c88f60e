// Geometries that several threads read at the same time.
#include <memory>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "concurrent.hh"
#include "element.hh"

using concurrent::Answer;
using concurrent::Operation;

// the point (1,...) bent by a quadratic term
template< int dim, int cdim >
static FieldVector< double, cdim > bent ( const FieldVector< double, dim > &x )
{
  FieldVector< double, cdim > y( 0 );
  for( int c = 0; c < cdim; ++c )
  {
    y[ c ] = 0.5*c + (c < dim ? 2*x[ c ] : 0.25);
    for( int d = 0; d < dim; ++d )
      y[ c ] += 0.125*(c+1)*x[ d ]*x[ d ] + (c == d+1 ? 0.25*x[ d ] : 0);
  }
  return y;
}

template< int dim, int cdim >
struct Bend
{
  FieldVector< double, cdim > operator() ( const FieldVector< double, dim > &x ) const { return bent< dim, cdim >( x ); }
  friend auto derivative ( const Bend & )
  {
    return [] ( const FieldVector< double, dim > &x ) {
        FieldMatrix< double, cdim, dim > m( 0 );
        for( int c = 0; c < cdim; ++c )
          for( int d = 0; d < dim; ++d )
            m[ c ][ d ] = (c == d ? 2 : 0) + 0.25*(c+1)*x[ d ] + (c == d+1 ? 0.25 : 0);
        return m;
      };
  }
};

// everything that can be asked of a geometry without changing it
template< class Geo >
static void ask ( const Geo &g, Answer &a, double u, bool caching )
{
  typename Geo::LocalCoordinate x( u );
  a.mix( g.type().id() );
  a.mix( g.corners() );
  for( int i = 0; i < g.corners(); ++i )
    a.vector( g.corner( i ) );
  a.vector( g.center() );
  const auto y = g.global( x );
  a.vector( y );
  a.value( g.integrationElement( x ) );
  a.matrix( FieldMatrix< double, Geo::mydimension, Geo::coorddimension >( g.jacobianTransposed( x ) ) );
  a.matrix( FieldMatrix< double, Geo::coorddimension, Geo::mydimension >( g.jacobianInverseTransposed( x ) ) );
  a.matrix( FieldMatrix< double, Geo::coorddimension, Geo::mydimension >( g.jacobian( x ) ) );
  a.matrix( FieldMatrix< double, Geo::mydimension, Geo::coorddimension >( g.jacobianInverse( x ) ) );
  a.vector( g.local( y ) );
  a.mix( referenceElement( g ).size( 0 ) );
  if( caching )
  {
    a.mix( g.affine() );
    a.value( g.volume() );
  }
}

// "shared": one object, made before the threads start; "own": each thread asks a copy of it.
// Classes that keep results (caching geometries, affine() of finite element geometries) are shared without those results.
template< class Geo >
static void add ( std::vector< Operation > &alphabet, const std::string &name, std::shared_ptr< const Geo > g, bool shareable, bool keeps )
{
  const Geo *p = g.get();
  for( double u : { 0.25, 0.5 } )
  {
    if( shareable )
      alphabet.push_back( { mc::str( "shared:%s@%g", name.c_str(), u ), [ p, u, keeps ] ( Answer &a ) { a.address = p; ask( *p, a, u, !keeps ); } } );
    if( u == 0.25 )
      alphabet.push_back( { mc::str( "own:%s@%g", name.c_str(), u ), [ p, u ] ( Answer &a ) { const Geo h( *p ); ask( h, a, u, true ); } } );
  }
  static std::vector< std::shared_ptr< const void > > keep;
  keep.push_back( g );
}

template< int dim, int cdim, class Geo >
static void addCornered ( std::vector< Operation > &alphabet, const char *name, unsigned w, bool shareable )
{
  const GeometryType gt( w, dim );
  std::vector< FieldVector< double, cdim > > corners;
  const bool pyramid = (dim == 3 && w == 3), triangle = (dim == 2 && w == 0);
  const int n = pyramid ? 5 : triangle ? 3 : (1 << dim);
  for( int i = 0; i < n; ++i )
  {
    FieldVector< double, dim > x( 0 );
    for( int d = 0; d < dim; ++d )
      x[ d ] = pyramid && i == 4 ? (d == 2) : (i >> d) & 1;
    corners.push_back( bent< dim, cdim >( x ) );
    if( !triangle )
      corners.back()[ 0 ] += 0.25*((i & 3) == 3);
  }
  add( alphabet, mc::str( "%s%u/%d:%d", name, w, dim, cdim ), std::make_shared< const Geo >( gt, corners ), shareable, false );
}

int main ( int argc, char **argv )
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  std::vector< Operation > alphabet;
  // Nothing here may look up a reference element before the children start: the geometries are made in one process of
  // their own per schedule.  Geometries are small, so they are made here and inherited.
  addCornered< 2, 2, Dune::MultiLinearGeometry< double, 2, 2 > >( alphabet, "multilinear", 3, true );
  addCornered< 2, 3, Dune::MultiLinearGeometry< double, 2, 3 > >( alphabet, "multilinear", 3, true );
  addCornered< 3, 3, Dune::MultiLinearGeometry< double, 3, 3 > >( alphabet, "multilinear", 3, true );
  addCornered< 2, 2, Dune::CachedMultiLinearGeometry< double, 2, 2 > >( alphabet, "cached", 3, false );
  addCornered< 2, 3, Dune::CachedMultiLinearGeometry< double, 2, 3 > >( alphabet, "cached", 0, false );
  addCornered< 2, 2, Dune::AffineGeometry< double, 2, 2 > >( alphabet, "affine", 0, true );
  addCornered< 2, 3, Dune::AffineGeometry< double, 2, 3 > >( alphabet, "affine", 0, true );
  typedef Dune::AxisAlignedCubeGeometry< double, 2, 2 > Box;
  add( alphabet, "box", std::make_shared< const Box >( FieldVector< double, 2 >{ 1, 2 }, FieldVector< double, 2 >{ 3, 5 } ), true, false );
  typedef Dune::AxisAlignedCubeGeometry< double, 2, 3 > Plane;
  add( alphabet, "plane", std::make_shared< const Plane >( FieldVector< double, 3 >{ 1, 2, 7 }, FieldVector< double, 3 >{ 3, 2, 9 }, std::bitset< 3 >( 5 ) ), true, false );
  // finite element geometries of two orders share their working storage
  for( int k = 1; k <= 2; ++k )
  {
    typedef Dune::LocalFiniteElementGeometry< Element< 2 >, 2 > Quad;
    add( alphabet, mc::str( "element%d/2:2", k ), std::make_shared< const Quad >( Dune::GeometryTypes::quadrilateral, Element< 2 >( k ), bent< 2, 2 > ), true, true );
    typedef Dune::LocalFiniteElementGeometry< Element< 1 >, 2 > Curve;
    add( alphabet, mc::str( "element%d/1:2", k ), std::make_shared< const Curve >( Dune::GeometryTypes::line, Element< 1 >( k ), bent< 1, 2 > ), true, true );
  }
  typedef Dune::MappedGeometry< Bend< 2, 2 >, Box > MappedBox;
  add( alphabet, "mappedbox", std::make_shared< const MappedBox >( Bend< 2, 2 >(), Box( FieldVector< double, 2 >{ 0, 0 }, FieldVector< double, 2 >{ 1, 2 } ) ), true, false );

  const int n = int( alphabet.size() );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ j ] } }, t ? 3 : 1 );
  for( int i = 0; i < n; ++i )
    concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ i ] } }, t ? 2 : 1 );
  return ex.finish();
}
