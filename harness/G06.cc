// Cached multilinear geometries: every history of calls gives the results of the uncached class.
#include <dune/geometry/multilineargeometry.hh>
#include "corners.hh"

using Dune::GeometryType;
using namespace geocheck;

template< class ct, int dim, int cdim >
struct Scene
{
  typedef Dune::CachedMultiLinearGeometry< ct, dim, cdim > Geo;
  typedef Dune::MultiLinearGeometry< ct, dim, cdim > Plain;
  static constexpr int operations = 12;

  mc::Explorer &ex;
  unsigned w;
  std::vector< Vec > pts;
  std::vector< Dune::FieldVector< ct, cdim > > corners[ 2 ];
  Spec spec[ 2 ];
  family::Config config[ 2 ];

  static const char *name ( int op )
  {
    static const char *n[] = { "affine", "global", "local", "integrationElement", "volume", "center", "jacobianTransposed",
                               "jacobianInverseTransposed", "jacobian", "jacobianInverse", "copy", "assign" };
    return n[ op ];
  }

  // the result of one call as a list of numbers
  template< class G >
  static std::vector< Real > call ( const G &g, int op, const Vec &u, const Dune::FieldVector< ct, cdim > &y )
  {
    typename Plain::LocalCoordinate x;
    for( int k = 0; k < dim; ++k )
      x[ k ] = ct( u[ k ] );
    std::vector< Real > r;
    auto vec = [ & ] ( const auto &v ) { for( auto e : v ) r.push_back( e ); };
    auto mat = [ & ] ( const Mat &m ) { for( const Vec &v : m ) r.insert( r.end(), v.begin(), v.end() ); };
    switch( op )
    {
    case 0: r.push_back( g.affine() ); break;
    case 1: vec( g.global( x ) ); break;
    case 2: vec( g.local( y ) ); break;
    case 3: r.push_back( g.integrationElement( x ) ); break;
    case 4: r.push_back( g.volume() ); break;
    case 5: vec( g.center() ); break;
    case 6: mat( dense< ct, dim, cdim >( g.jacobianTransposed( x ) ) ); break;
    case 7:
      {
        const auto jit = g.jacobianInverseTransposed( x );
        mat( dense< ct, cdim, dim >( jit ) );
        r.push_back( jit.detInv() );
        r.push_back( jit.det() );
        break;
      }
    case 8: mat( dense< ct, cdim, dim >( g.jacobian( x ) ) ); break;
    case 9: mat( dense< ct, dim, cdim >( g.jacobianInverse( x ) ) ); break;
    }
    return r;
  }

  void history ( const std::vector< int > &ops )
  {
    const GeometryType gt( w, dim );
    // geometry 0 under test; geometry 1 is another one, with whatever it has cached, to assign from
    Geo g( gt, corners[ 0 ] );
    int current = 0;
    std::size_t n = 0;
    for( int op : ops )
    {
      if( op == 10 )
      {
        Geo h( g );
        g = h;
      }
      else if( op == 11 )
      {
        // switch to the other geometry by assignment
        current = 1 - current;
        Geo h( gt, corners[ current ] );
        if( n % 2 )
          (void)call( h, 7, pts[ 0 ], corners[ current ][ 0 ] );
        g = h;
        ex.step();
      }
      else
      {
        const Plain p( Dune::referenceElement< ct, dim >( gt ), corners[ current ] );
        const Vec &u = pts[ n % pts.size() ];
        typename Plain::LocalCoordinate x;
        for( int k = 0; k < dim; ++k )
          x[ k ] = ct( pts[ (n + 1) % pts.size() ][ k ] );
        const auto y = p.global( x );
        const auto want = call( p, op, u, y );
        const auto got = call( g, op, u, y );
        Real sc = 1;
        for( Real v : want )
          sc = std::max( sc, std::fabs( v ) );
        const Real tol = (op == 2 && !spec[ current ].affine ? Real( 1e-6L ) : Real( 2048 ) * std::numeric_limits< ct >::epsilon()) * sc;
        for( std::size_t i = 0; i < want.size(); ++i )
          if( !ex.near( got[ i ], want[ i ], tol, name( op ) ) )
            return;
      }
      ++n;
    }
    // the object that remains answers everything
    const Plain p( gt, corners[ current ] );
    for( int op = 0; op < 10; ++op )
    {
      const auto y = p.center();
      const auto want = call( p, op, pts[ 1 ], y );
      const auto got = call( g, op, pts[ 1 ], y );
      for( std::size_t i = 0; i < want.size(); ++i )
        ex.near( got[ i ], want[ i ], 1e-5L, name( op ) );
    }
  }

  void explore ( const std::string &prefix, int length )
  {
    std::vector< int > ops;
    std::function< void () > rec = [ & ] {
        if( !ops.empty() )
        {
          std::string key = prefix;
          for( int op : ops )
            key += std::string( " " ) + name( op );
          ex.run( key, [ & ] { history( ops ); } );
        }
        if( int( ops.size() ) == length )
          return;
        for( int op = 0; op < operations; ++op )
        {
          ops.push_back( op );
          rec();
          ops.pop_back();
        }
      };
    rec();
  }
};

template< class ct, int dim, int cdim >
void explore ( mc::Explorer &ex, const char *ctName, int length )
{
  for( unsigned w = 0; w < (1u << dim); w += 2 )
  {
    std::vector< family::Config > all;
    family::forAll( dim, w, cdim, 2, true, [ & ] ( const family::Config &c ) { all.push_back( c ); } );
    // one affine and one non-affine configuration (if the type admits one), in both roles
    std::vector< std::size_t > pick;
    bool haveA = false, haveN = false;
    for( std::size_t i = all.size(); i-- > 0; )
    {
      const bool a = affineImages( model::cell( dim, w ), all[ i ].Y, cdim );
      if( a && !haveA ) { haveA = true; pick.push_back( i ); }
      if( !a && !haveN ) { haveN = true; pick.push_back( i ); }
    }
    pick.push_back( 0 );
    for( std::size_t first : pick )
      for( std::size_t second : pick )
      {
        if( first == second )
          continue;
        Scene< ct, dim, cdim > s{ ex, w, points( dim, w, 3 ), {}, {}, {} };
        // interior points only: the derivative at a tip is not unique
        std::vector< Vec > in;
        for( const Vec &u : s.pts )
          if( !atTip( dim, w, u ) )
            in.push_back( u );
        s.pts = in;
        s.config[ 0 ] = all[ first ];
        s.config[ 1 ] = all[ second ];
        for( int i = 0; i < 2; ++i )
        {
          s.spec[ i ] = family::spec( dim, w, cdim, s.config[ i ], std::numeric_limits< ct >::epsilon() );
          s.corners[ i ] = family::corners< ct, cdim >( s.config[ i ] );
        }
        s.explore( mc::str( "cached %s %u/%d in %d geometries %d %d:", ctName, w, dim, cdim, int( first ), int( second ) ), length );
      }
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< double, 1, 1 >( ex, "double", t ? 6 : 5 );
  explore< double, 1, 2 >( ex, "double", t ? 5 : 4 );
  explore< double, 2, 2 >( ex, "double", t ? 6 : 5 );
  explore< double, 2, 3 >( ex, "double", t ? 6 : 5 );
  explore< double, 3, 3 >( ex, "double", t ? 5 : 4 );
  explore< float, 2, 2 >( ex, "float", t ? 5 : 4 );
  return ex.finish();
}
