// Geometry type identity: equality, order, predicates, extensions, ids, printing.
#include <sstream>
#include <dune/geometry/type.hh>
#include "common.hh"

using Dune::GeometryType;
namespace GTs = Dune::GeometryTypes;

struct MType   // model: how the type was built
{
  int dim; bool none; unsigned word;   // word: bit k set = step k was a prism
  std::string name () const { return mc::str( "%s%u/%d", none ? "none:" : "", word, dim ); }
};

static bool same ( const MType &a, const MType &b )
{
  return a.none == b.none && a.dim == b.dim && (a.none || model::sameShape( a.word, b.word ));
}

static void predicates ( mc::Explorer &ex, const MType &m, const GeometryType &t )
{
  const unsigned w = m.word;
  auto bit = [ & ] ( int k ) { return bool( (w >> k) & 1u ); };
  bool allCone = true, allPrism = true;
  for( int k = 1; k < m.dim; ++k )
  {
    allCone &= !bit( k );
    allPrism &= bit( k );
  }
  ex.expectf( int( t.dim() ) == m.dim, "dim() = %d", int( t.dim() ) );
  ex.expect( t.isNone() == m.none, "isNone()" );
  const bool s = !m.none;
  if( s )
  {
    ex.expect( t.isVertex() == (m.dim == 0), "isVertex()" );
    ex.expect( t.isLine() == (m.dim == 1), "isLine()" );
  }
  ex.expect( t.isTriangle() == (s && m.dim == 2 && allCone), "isTriangle()" );
  ex.expect( t.isQuadrilateral() == (s && m.dim == 2 && allPrism), "isQuadrilateral()" );
  ex.expect( t.isTetrahedron() == (s && m.dim == 3 && allCone), "isTetrahedron()" );
  ex.expect( t.isHexahedron() == (s && m.dim == 3 && allPrism), "isHexahedron()" );
  ex.expect( t.isPyramid() == (s && m.dim == 3 && bit( 1 ) && !bit( 2 )), "isPyramid()" );
  ex.expect( t.isPrism() == (s && m.dim == 3 && !bit( 1 ) && bit( 2 )), "isPrism()" );
  ex.expect( t.isSimplex() == (s && allCone), "isSimplex()" );
  ex.expect( t.isCube() == (s && allPrism), "isCube()" );
  if( m.dim >= 1 )
  {
    ex.expect( t.isConical() == (s && (m.dim == 1 || !bit( m.dim-1 ))), "isConical()" );
    ex.expect( t.isPrismatic() == (s && (m.dim == 1 || bit( m.dim-1 ))), "isPrismatic()" );
  }
  for( int k = 0; k < m.dim; ++k )
  {
    ex.expectf( t.isConical( k ) == (s && (k == 0 || !bit( k ))), "isConical(%d)", k );
    ex.expectf( t.isPrismatic( k ) == (s && (k == 0 || bit( k ))), "isPrismatic(%d)", k );
  }

  // compile-time id and back
  const GeometryType::Id id = t;
  const GeometryType back( id );
  ex.expect( back == t && !(back != t), "conversion to Id and back" );
  ex.expect( int( back.dim() ) == m.dim && back.isNone() == m.none && back.id() == t.id(), "Id keeps all data" );
  ex.expect( t.toId() == id, "toId()" );

  // printing
  std::ostringstream out;
  out << t;
  std::string want;
  if( m.none ) want = mc::str( "(none, %d)", m.dim );
  else if( allCone ) want = mc::str( "(simplex, %d)", m.dim );
  else if( allPrism ) want = mc::str( "(cube, %d)", m.dim );
  else if( m.dim == 3 ) want = bit( 2 ) ? "(prism, 3)" : "(pyramid, 3)";
  if( !want.empty() )
    ex.expectf( out.str() == want, "printed as '%s' instead of '%s'", out.str().c_str(), want.c_str() );
  else
    ex.expect( out.str().find( "other" ) != std::string::npos && out.str().find( std::to_string( t.id() ) ) != std::string::npos, "printed name of a general type" );
  ex.outcome( out.str() );
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const int maxPair = ex.thorough() ? 10 : 8;     // all pairs of types up to this dimension
  const int maxDim = ex.thorough() ? 15 : 13;    // single types and pairs within one dimension

  // every construction word, including the irrelevant first bit, and none types
  auto all = [] ( int lo, int hi ) {
    std::vector< std::pair< MType, GeometryType > > v;
    for( int d = lo; d <= hi; ++d )
    {
      for( unsigned w = 0; w < (1u << d); ++w )
        v.push_back( { MType{ d, false, w }, GeometryType( w, d ) } );
      v.push_back( { MType{ d, true, 0 }, GTs::none( d ) } );
      if( d >= 1 )
      {
        v.push_back( { MType{ d, true, 0 }, GTs::prismaticExtension( GTs::none( d-1 ) ) } );
        v.push_back( { MType{ d, true, 0 }, GTs::conicalExtension( GTs::none( d-1 ) ) } );
      }
    }
    return v;
  };

  for( int d = 0; d <= maxDim; ++d )
    for( auto &t : all( d, d ) )
      ex.run( "single " + t.first.name(), [ & ] { predicates( ex, t.first, t.second ); } );

  // derived types: all sequences of extensions starting from a point
  for( int d = 0; d <= maxDim-1; ++d )
    for( unsigned w = 0; w < (1u << d); ++w )
      ex.run( mc::str( "construct %u/%d", w, d ), [ & ] {
          GeometryType t = GTs::vertex;
          for( int k = 0; k < d; ++k )
            t = ((w >> k) & 1u) ? GTs::prismaticExtension( t ) : GTs::conicalExtension( t );
          ex.step( d );
          ex.expect( t == GeometryType( w, d ), "extension sequence yields the type with that word" );
          predicates( ex, MType{ d, false, w }, t );
        } );

  // all sequences of extensions of 'none' remain 'none'
  for( int d = 1; d <= 8; ++d )
    for( unsigned w = 0; w < (1u << d); ++w )
      ex.run( mc::str( "construct none %u/%d", w, d ), [ & ] {
          for( int from = 0; from < d; ++from )
          {
            GeometryType t = GTs::none( from );
            for( int k = from; k < d; ++k )
              t = ((w >> k) & 1u) ? GTs::prismaticExtension( t ) : GTs::conicalExtension( t );
            ex.step( d-from );
            ex.expect( t == GTs::none( d ) && !(t != GTs::none( d )) && !(t < GTs::none( d )) && !(GTs::none( d ) < t), "extensions of none are none" );
            predicates( ex, MType{ d, true, 0 }, t );
          }
        } );

  // named types
  ex.run( "named", [ & ] {
      for( int d = 0; d <= maxDim; ++d )
      {
        predicates( ex, MType{ d, false, 0 }, GTs::simplex( d ) );
        predicates( ex, MType{ d, false, (1u << d) - 1u }, GTs::cube( d ) );
        predicates( ex, MType{ d, true, 0 }, GTs::none( d ) );
      }
      predicates( ex, MType{ 0, false, 0 }, GTs::vertex );
      predicates( ex, MType{ 1, false, 0 }, GTs::line );
      predicates( ex, MType{ 2, false, 0 }, GTs::triangle );
      predicates( ex, MType{ 2, false, 3 }, GTs::quadrilateral );
      predicates( ex, MType{ 3, false, 0 }, GTs::tetrahedron );
      predicates( ex, MType{ 3, false, 3 }, GTs::pyramid );
      predicates( ex, MType{ 3, false, 5 }, GTs::prism );
      predicates( ex, MType{ 3, false, 7 }, GTs::hexahedron );
      predicates( ex, MType{ 0, true, 0 }, GeometryType() );
    } );

  // equality and order on all pairs
  auto pairs = [ & ] ( const std::vector< std::pair< MType, GeometryType > > &v ) {
    // number of types that are smaller: in a strict weak order this is a rank
    std::vector< int > rank( v.size(), 0 );
    if( !ex.replaying() || true )
      for( std::size_t i = 0; i < v.size(); ++i )
        for( std::size_t j = 0; j < v.size(); ++j )
          rank[ i ] += (v[ j ].second < v[ i ].second);
    for( std::size_t i = 0; i < v.size(); ++i )
      ex.run( "pairs " + v[ i ].first.name() + mc::str( " #%d of %d", int( i ), int( v.size() ) ), [ & ] {
          for( std::size_t j = 0; j < v.size(); ++j )
          {
            const bool eq = same( v[ i ].first, v[ j ].first );
            const bool e = (v[ i ].second == v[ j ].second), n = (v[ i ].second != v[ j ].second);
            const bool lt = (v[ i ].second < v[ j ].second), gt = (v[ j ].second < v[ i ].second);
            ex.expectf( e == eq && n == !eq, "compared with %s: == is %d, != is %d", v[ j ].first.name().c_str(), int( e ), int( n ) );
            ex.expectf( int( lt ) + int( gt ) + int( eq ) == 1, "compared with %s: <, >, == are %d, %d, %d", v[ j ].first.name().c_str(), int( lt ), int( gt ), int( e ) );
            ex.expectf( lt == (rank[ i ] < rank[ j ]), "order is not transitive at %s", v[ j ].first.name().c_str() );
          }
        } );
  };
  pairs( all( 0, maxPair ) );
  for( int d = maxPair+1; d <= maxDim - 2; ++d )
    pairs( all( d, d ) );
  return ex.finish();
}
