// Objects are values: every history of copies, moves, assignments and deletions leaves each object with its own contents.
#include <functional>
#include <memory>
#include <optional>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/referenceelements.hh>
#include "element.hh"
#include "mc.hh"

#ifdef __SANITIZE_ADDRESS__
// memory of deleted objects must not be used
extern "C" const char *__asan_default_options () { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"; }
#endif

typedef std::vector< double > Numbers;

template< class T >
struct Subject
{
  std::string name;
  std::vector< std::function< T () > > make;
  int questions;
  std::function< void ( const T &, int, Numbers & ) > ask;
};

template< class T >
struct World
{
  mc::Explorer &ex;
  const Subject< T > &s;
  std::vector< std::vector< Numbers > > expected;   // per contents and question, from an untouched object

  static const int none = -1, moved = -2;

  std::unique_ptr< T > object[ 2 ];
  int contents[ 2 ] = { none, none };
  unsigned asked[ 2 ] = { 0, 0 };

  World ( mc::Explorer &e, const Subject< T > &subject ) : ex( e ), s( subject )
  {
    for( const auto &m : s.make )
    {
      expected.emplace_back();
      for( int q = 0; q < s.questions; ++q )
      {
        const T t = m();
        expected.back().emplace_back();
        s.ask( t, q, expected.back().back() );
      }
    }
  }

  struct Op { std::string name; std::function< bool ( World & ) > apply; };

  bool answer ( int i, int q )
  {
    Numbers got;
    s.ask( *object[ i ], q, got );
    const Numbers &want = expected[ contents[ i ] ][ q ];
    ex.step();
    bool ok = (got.size() == want.size());
    for( std::size_t k = 0; ok && k < want.size(); ++k )
      ok = std::fabs( got[ k ] - want[ k ] ) <= 1e-11 * std::max( 1., std::fabs( want[ k ] ) );
    return ok;
  }

  std::vector< Op > ops () const
  {
    std::vector< Op > r;
    for( int i = 0; i < 2; ++i )
    {
      const int j = 1-i;
      for( int k = 0; k < int( s.make.size() ); ++k )
        r.push_back( { mc::str( "%c:new %d", 'a'+i, k ), [ i, k ] ( World &w ) {
            w.object[ i ].reset( new T( w.s.make[ k ]() ) );
            w.contents[ i ] = k;
            w.asked[ i ] = 0;
            return true;
          } } );
      r.push_back( { mc::str( "%c:copy of %c", 'a'+i, 'a'+j ), [ i, j ] ( World &w ) {
          if( w.contents[ j ] < 0 )
            return false;
          w.object[ i ].reset( new T( *w.object[ j ] ) );
          w.contents[ i ] = w.contents[ j ];
          w.asked[ i ] = w.asked[ j ];
          return true;
        } } );
      r.push_back( { mc::str( "%c:made from moved %c", 'a'+i, 'a'+j ), [ i, j ] ( World &w ) {
          if( w.contents[ j ] < 0 )
            return false;
          w.object[ i ].reset( new T( std::move( *w.object[ j ] ) ) );
          w.contents[ i ] = w.contents[ j ];
          w.asked[ i ] = w.asked[ j ];
          w.contents[ j ] = moved;
          return true;
        } } );
      r.push_back( { mc::str( "%c=%c", 'a'+i, 'a'+j ), [ i, j ] ( World &w ) {
          if( w.contents[ j ] < 0 || w.contents[ i ] == none )
            return false;
          *w.object[ i ] = *w.object[ j ];
          w.contents[ i ] = w.contents[ j ];
          w.asked[ i ] = w.asked[ j ];
          return true;
        } } );
      r.push_back( { mc::str( "%c=moved %c", 'a'+i, 'a'+j ), [ i, j ] ( World &w ) {
          if( w.contents[ j ] < 0 || w.contents[ i ] == none )
            return false;
          *w.object[ i ] = std::move( *w.object[ j ] );
          w.contents[ i ] = w.contents[ j ];
          w.asked[ i ] = w.asked[ j ];
          w.contents[ j ] = moved;
          return true;
        } } );
      r.push_back( { mc::str( "%c=itself", 'a'+i ), [ i ] ( World &w ) {
          if( w.contents[ i ] < 0 )
            return false;
          const T &self = *w.object[ i ];
          *w.object[ i ] = self;
          return true;
        } } );
      if constexpr( std::is_default_constructible_v< T > )
        r.push_back( { mc::str( "%c:default=%c", 'a'+i, 'a'+j ), [ i, j ] ( World &w ) {
            if( w.contents[ j ] < 0 )
              return false;
            w.object[ i ].reset( new T );
            *w.object[ i ] = *w.object[ j ];
            w.contents[ i ] = w.contents[ j ];
            w.asked[ i ] = w.asked[ j ];
            return true;
          } } );
      r.push_back( { mc::str( "%c:delete", 'a'+i ), [ i ] ( World &w ) {
          if( w.contents[ i ] == none )
            return false;
          w.object[ i ].reset();
          w.contents[ i ] = none;
          w.asked[ i ] = 0;
          return true;
        } } );
      for( int q = 0; q < s.questions; ++q )
        r.push_back( { mc::str( "%c?%d", 'a'+i, q ), [ i, q ] ( World &w ) {
            if( w.contents[ i ] < 0 )
              return false;
            w.wrong = !w.answer( i, q );
            w.asked[ i ] |= 1u << q;
            return true;
          } } );
    }
    r.push_back( { "swap", [] ( World &w ) {
        if( w.contents[ 0 ] < 0 || w.contents[ 1 ] < 0 )
          return false;
        using std::swap;
        swap( *w.object[ 0 ], *w.object[ 1 ] );
        std::swap( w.contents[ 0 ], w.contents[ 1 ] );
        std::swap( w.asked[ 0 ], w.asked[ 1 ] );
        return true;
      } } );
    return r;
  }

  bool wrong = false;

  void reset ()
  {
    for( int i = 0; i < 2; ++i )
    {
      object[ i ].reset();
      contents[ i ] = none;
      asked[ i ] = 0;
    }
    wrong = false;
  }

  // run one history; false if an operation is not possible
  bool run ( const std::vector< Op > &all, const std::vector< int > &h )
  {
    reset();
    for( int o : h )
    {
      if( !all[ o ].apply( *this ) )
        return false;
      ex.step();
      if( wrong )
        return true;
    }
    return true;
  }

  std::string print ( const std::vector< Op > &all, const std::vector< int > &h ) const
  {
    std::string r;
    for( int o : h )
      r += (r.empty() ? "" : ", ") + all[ o ].name;
    return r;
  }

  // every continuation of h up to the length; after each the objects are asked everything
  void explore ( const std::vector< Op > &all, std::vector< int > &h, std::size_t length )
  {
    if( !run( all, h ) )
      return;
    for( int i = 0; i < 2 && !wrong; ++i )
      if( contents[ i ] >= 0 )
        for( int q = 0; q < s.questions && !wrong; ++q )
          wrong = !answer( i, q );
    ex.state( mc::str( "%s %d %d %u %u", s.name.c_str(), contents[ 0 ], contents[ 1 ], asked[ 0 ], asked[ 1 ] ) );
    ex.outcome( mc::str( "%s %d %d", s.name.c_str(), contents[ 0 ], contents[ 1 ] ) );
    ex.count( "histories" );
    if( wrong )
    {
      ex.fail( "after %s an object does not answer as one with its contents", print( all, h ).c_str() );
      return;
    }
    if( h.size() >= length )
      return;
    for( std::size_t o = 0; o < all.size(); ++o )
    {
      h.push_back( int( o ) );
      explore( all, h, length );
      h.pop_back();
    }
  }
};

template< class T >
void explore ( mc::Explorer &ex, const Subject< T > &s, int length )
{
  World< T > probe( ex, s );
  const auto all = probe.ops();
  for( std::size_t o = 0; o < all.size(); ++o )
    for( std::size_t p = 0; p < all.size(); ++p )
    {
      std::vector< int > h = { int( o ), int( p ) };
      // only objects of the first kind of contents are made first (the rest is the same up to names)
      if( !probe.run( all, h ) || all[ o ].name[ 0 ] != 'a' )
        continue;
      probe.reset();
      ex.run( s.name + ": " + probe.print( all, h ), [ & ] {
          World< T > w( ex, s );
          w.explore( all, h, length );
        } );
    }
}

// --- geometries -------------------------------------------------------------

template< class Geo >
Subject< Geo > geometry ( const std::string &name, std::vector< std::function< Geo () > > make )
{
  return { name, std::move( make ), 5, [] ( const Geo &g, int q, Numbers &r ) {
      typename Geo::LocalCoordinate x( 0.25 );
      auto vec = [ & ] ( const auto &v ) { for( auto e : v ) r.push_back( e ); };
      auto mat = [ & ] ( const auto &m ) {
          typename Geo::LocalCoordinate a;
          typename Geo::GlobalCoordinate b;
          for( int i = 0; i < Geo::mydimension; ++i )
          {
            a = 0;
            a[ i ] = 1;
            m.mv( a, b );
            vec( b );
          }
        };
      switch( q )
      {
      case 0:
        r.push_back( g.affine() );
        break;
      case 1:
        vec( g.global( x ) );
        mat( g.jacobian( x ) );
        break;
      case 2:
        vec( g.local( g.global( x ) ) );
        break;
      case 3:
        mat( g.jacobianInverseTransposed( x ) );
        r.push_back( g.integrationElement( x ) );
        break;
      case 4:
        r.push_back( g.type().id() );
        r.push_back( referenceElement( g ).size( 0, 0, Geo::mydimension ) );
        for( int i = 0; i < g.corners(); ++i )
          vec( g.corner( i ) );
        vec( g.center() );
        r.push_back( g.volume() );
        break;
      }
    } };
}

// corners of a cell, moved by 'shift' and, at one corner, by 'bend'
template< int dim, int cdim >
std::vector< FieldVector< double, cdim > > corners ( GeometryType gt, double shift, double bend )
{
  const auto r = Dune::referenceElement< double, dim >( gt );
  std::vector< FieldVector< double, cdim > > y;
  for( int i = 0; i < r.size( dim ); ++i )
  {
    FieldVector< double, cdim > z( shift );
    for( int k = 0; k < dim; ++k )
      z[ k ] += (1.5 + shift) * r.position( i, dim )[ k ];
    if( i == r.size( dim )-1 )
      z[ 0 ] += bend;
    y.push_back( z );
  }
  return y;
}

template< int dim, int cdim >
struct Bend
{
  double s = 0;
  FieldVector< double, cdim > operator() ( const FieldVector< double, dim > &x ) const
  {
    FieldVector< double, cdim > y( s );
    for( int d = 0; d < dim; ++d )
      y[ d ] += 2*x[ d ] + s*x[ d ]*x[ d ];
    return y;
  }
  friend auto derivative ( const Bend &b )
  {
    return [ s = b.s ] ( const FieldVector< double, dim > &x ) {
        FieldMatrix< double, cdim, dim > m( 0 );
        for( int d = 0; d < dim; ++d )
          m[ d ][ d ] = 2 + 2*s*x[ d ];
        return m;
      };
  }
};

template< template< class, int, int > class G, int dim, int cdim >
Subject< G< double, dim, cdim > > cornered ( const std::string &name, const std::vector< GeometryType > &types, bool affineOnly )
{
  typedef G< double, dim, cdim > Geo;
  std::vector< std::function< Geo () > > make;
  for( const GeometryType &gt : types )
    for( double bend : { 0., 0.5 } )
      if( make.size() < 3 && (bend == 0 || (!affineOnly && !gt.isSimplex())) )
        make.push_back( [ =, n = make.size() ] { return Geo( gt, corners< dim, cdim >( gt, 0.5*n, bend ) ); } );
  return geometry< Geo >( name, make );
}

template< class ct, int dim, int cdim > using Affine = Dune::AffineGeometry< ct, dim, cdim >;
template< class ct, int dim, int cdim > using Multi = Dune::MultiLinearGeometry< ct, dim, cdim >;
template< class ct, int dim, int cdim > using Cached = Dune::CachedMultiLinearGeometry< ct, dim, cdim >;

template< int dim, int cdim >
Subject< Dune::LocalFiniteElementGeometry< Element< dim >, cdim > > finite ( const std::string &name )
{
  typedef Dune::LocalFiniteElementGeometry< Element< dim >, cdim > Geo;
  const GeometryType gt = Dune::GeometryTypes::cube( dim );
  return geometry< Geo >( name, {
      [ = ] { return Geo( gt, Element< dim >( 1 ), corners< dim, cdim >( gt, 0, 0 ) ); },
      [ = ] { return Geo( gt, Element< dim >( 1 ), corners< dim, cdim >( gt, 0.5, 0.5 ) ); },
      [ = ] { return Geo( gt, Element< dim >( 2 ), Bend< dim, cdim >{ 0.25 } ); } } );
}

template< int dim, int cdim, int wdim >
auto mapped ( const std::string &name )
{
  typedef Dune::AffineGeometry< double, dim, cdim > Inner;
  typedef Dune::MappedGeometry< Bend< cdim, wdim >, Inner > Geo;
  const GeometryType a = Dune::GeometryTypes::simplex( dim ), b = Dune::GeometryTypes::cube( dim );
  return geometry< Geo >( name, {
      [ = ] { return Geo( Bend< cdim, wdim >{ 0 }, Inner( a, corners< dim, cdim >( a, 0, 0 ) ), true ); },
      [ = ] { return Geo( Bend< cdim, wdim >{ 0.25 }, Inner( b, corners< dim, cdim >( b, 0.5, 0 ) ) ); },
      [ = ] { return Geo( Bend< cdim, wdim >{ 0.125 }, Inner( a, corners< dim, cdim >( a, 1, 0 ) ) ); } } );
}

template< int dim, int cdim >
auto box ( const std::string &name )
{
  typedef Dune::AxisAlignedCubeGeometry< double, dim, cdim > Geo;
  std::vector< std::function< Geo () > > make;
  for( int k = 0; k < 3; ++k )
    make.push_back( [ k ] {
        FieldVector< double, cdim > a( k ), b( k );
        std::bitset< cdim > axes;
        // other axes for every one if there is a choice
        for( int n = 0, i = k % cdim; n < dim; ++n, i = (i+1) % cdim )
        {
          axes[ i ] = true;
          b[ i ] += 1 + 0.5*i + k;
        }
        return Geo( a, b, axes );
      } );
  return geometry< Geo >( name, make );
}

// --- other objects ----------------------------------------------------------

template< class Rule >
void askRule ( const Rule &r, int, Numbers &n )
{
  n.push_back( r.type().id() );
  n.push_back( r.order() );
  for( const auto &q : r )
  {
    n.push_back( q.weight() );
    for( double v : q.position() )
      n.push_back( v );
  }
}

template< int dim >
Subject< Dune::QuadratureRule< double, dim > > rules ( const std::string &name )
{
  typedef Dune::QuadratureRules< double, dim > Rules;
  typedef Dune::QuadratureRule< double, dim > Rule;
  return { name, { [] { return Rule( Rules::rule( Dune::GeometryTypes::simplex( dim ), 2 ) ); },
                   [] { return Rule( Rules::rule( Dune::GeometryTypes::cube( dim ), 3, Dune::QuadratureType::GaussLobatto ) ); },
                   [] { return Rule( Rules::rule( Dune::GeometryTypes::simplex( dim ), 0 ) ); } }, 1, &askRule< Rule > };
}

template< int dim >
Subject< Dune::CompositeQuadratureRule< double, dim > > composites ( const std::string &name )
{
  typedef Dune::QuadratureRules< double, dim > Rules;
  typedef Dune::CompositeQuadratureRule< double, dim > Rule;
  const auto gt = Dune::GeometryTypes::simplex( dim );
  return { name, { [ = ] { return Rule( Rules::rule( gt, 2 ), Dune::refinementIntervals( 1 ) ); },
                   [ = ] { return Rule( Rules::rule( gt, 1 ), Dune::refinementIntervals( 2 ) ); },
                   [ = ] { return Rule( Rules::rule( gt, 3 ), Dune::refinementLevels( 1 ) ); } }, 1, &askRule< Rule > };
}

template< int dim >
Subject< Dune::GeneralVertexOrder< dim > > orders ( const std::string &name )
{
  typedef Dune::GeneralVertexOrder< dim > Order;
  std::vector< std::function< Order () > > make;
  for( int k = 0; k < 3; ++k )
    make.push_back( [ k ] {
        const GeometryType gt = (k == 1 ? Dune::GeometryTypes::simplex( dim ) : Dune::GeometryTypes::cube( dim ));
        std::vector< int > ids;
        for( int i = 0; i < Dune::referenceElement< double, dim >( gt ).size( dim ); ++i )
          ids.push_back( (5*i + 3*k) % 11 );
        return Order( gt, ids.begin(), ids.end() );
      } );
  return { name, make, 2, [] ( const Order &o, int q, Numbers &n ) {
      n.push_back( o.type().id() );
      const auto r = Dune::referenceElement< double, dim >( o.type() );
      for( int c = 0; c <= dim; ++c )
        for( int i = 0; i < r.size( c ); ++i )
          if( q == 0 )
            for( auto it = o.begin( c, i ); it != o.end( c, i ); ++it )
              n.push_back( double( *it ) );
          else
          {
            std::vector< std::size_t > v;
            o.getReduced( c, i, v );
            n.insert( n.end(), v.begin(), v.end() );
          }
    } };
}

template< int dim >
auto elements ( const std::string &name )
{
  typedef typename Dune::ReferenceElements< double, dim >::ReferenceElement R;
  return Subject< R >{ name, { [] { return R( Dune::referenceElement< double, dim >( Dune::GeometryTypes::simplex( dim ) ) ); },
                               [] { return R( Dune::referenceElement< double, dim >( Dune::GeometryTypes::cube( dim ) ) ); },
                               [] { return R( Dune::referenceElement< double, dim >( GeometryType( 1u << (dim-1), dim ) ) ); } }, 2,
      [] ( const R &r, int q, Numbers &n ) {
        n.push_back( r.type().id() );
        for( int c = 0; c <= dim; ++c )
          for( int i = 0; i < r.size( c ); ++i )
            if( q == 0 )
            {
              for( double v : r.position( i, c ) )
                n.push_back( v );
            }
            else
              for( auto k : r.subEntities( i, c, dim ) )
                n.push_back( double( k ) );
      } };
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const int n = ex.thorough() ? 5 : 4;
  namespace GT = Dune::GeometryTypes;
  explore( ex, cornered< Affine, 2, 2 >( "affine 2 in 2", { GT::triangle, GT::quadrilateral, GT::triangle }, true ), n );
  explore( ex, cornered< Affine, 2, 3 >( "affine 2 in 3", { GT::quadrilateral, GT::triangle, GT::quadrilateral }, true ), n );
  explore( ex, cornered< Affine, 3, 3 >( "affine 3 in 3", { GT::prism, GT::tetrahedron, GT::hexahedron }, true ), n );
  explore( ex, cornered< Multi, 1, 2 >( "multilinear 1 in 2", { GT::line, GT::line, GT::line }, true ), n );
  explore( ex, cornered< Multi, 2, 2 >( "multilinear 2 in 2", { GT::quadrilateral, GT::triangle }, false ), n );
  explore( ex, cornered< Multi, 3, 3 >( "multilinear 3 in 3", { GT::prism, GT::tetrahedron }, false ), n );
  explore( ex, cornered< Cached, 2, 2 >( "cached 2 in 2", { GT::quadrilateral, GT::triangle }, false ), n );
  explore( ex, cornered< Cached, 2, 3 >( "cached 2 in 3", { GT::quadrilateral, GT::triangle }, false ), n );
  explore( ex, cornered< Cached, 3, 3 >( "cached 3 in 3", { GT::hexahedron, GT::tetrahedron }, false ), n );
  explore( ex, finite< 1, 2 >( "finite element 1 in 2" ), n );
  explore( ex, finite< 2, 2 >( "finite element 2 in 2" ), n );
  explore( ex, finite< 2, 3 >( "finite element 2 in 3" ), n );
  explore( ex, mapped< 1, 2, 2 >( "mapped 1 in 2 to 2" ), n );
  explore( ex, mapped< 2, 2, 2 >( "mapped 2 in 2 to 2" ), n );
  explore( ex, mapped< 2, 2, 3 >( "mapped 2 in 2 to 3" ), n );
  explore( ex, box< 1, 2 >( "box 1 in 2" ), n+1 );
  explore( ex, box< 2, 2 >( "box 2 in 2" ), n+1 );
  explore( ex, box< 2, 3 >( "box 2 in 3" ), n+1 );
  explore( ex, rules< 2 >( "rule 2" ), n+1 );
  explore( ex, composites< 2 >( "composite rule 2" ), n+1 );
  explore( ex, orders< 2 >( "vertex order 2" ), n+1 );
  explore( ex, orders< 3 >( "vertex order 3" ), n );
  explore( ex, elements< 2 >( "reference element 2" ), n+1 );
  explore( ex, elements< 3 >( "reference element 3" ), n );
  return ex.finish();
}
