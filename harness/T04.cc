// Names of types and types from vertex counts.
#include <pybind11/embed.h>
#include <dune/python/geometry/type.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;

struct Expect { bool valid; bool none; int dim; unsigned id; };

static std::string nameOf ( int dim, unsigned w )
{
  const unsigned c = w & ~1u, cube = ((1u << dim)-1) & ~1u;
  static const char *d3[] = { "tetrahedron", "pyramid", "prism", "hexahedron" };
  switch( dim )
  {
  case 0: return "vertex";
  case 1: return "line";
  case 2: return c ? "quadrilateral" : "triangle";
  case 3: return d3[ c >> 1 ];
  default: return c == 0 ? mc::str( "simplex(%d)", dim ) : c == cube ? mc::str( "cube(%d)", dim ) : mc::str( "general(%u, %d)", w, dim );
  }
}

static void same ( mc::Explorer &ex, const GeometryType &got, int dim, unsigned w, bool none, const char *what )
{
  ex.expectf( int( got.dim() ) == dim && got.isNone() == none && (none || model::sameShape( got.id(), w )), "%s: dimension %d id %u none %d", what, int( got.dim() ), got.id(), int( got.isNone() ) );
}

// what a text with a constructor name and a list of arguments denotes
static Expect denote ( const std::string &name, const std::vector< long > &args )
{
  static const std::map< std::string, std::pair< int, unsigned > > fixed = {
    { "vertex", { 0, 0 } }, { "line", { 1, 0 } }, { "triangle", { 2, 0 } }, { "quadrilateral", { 2, 3 } }, { "tetrahedron", { 3, 0 } },
    { "pyramid", { 3, 3 } }, { "prism", { 3, 5 } }, { "hexahedron", { 3, 7 } } };
  auto it = fixed.find( name );
  if( it != fixed.end() )
    return { args.empty(), false, it->second.first, it->second.second };
  if( name == "simplex" && args.size() == 1 )
    return { true, false, int( args[ 0 ] ), 0 };
  if( name == "cube" && args.size() == 1 )
    return { true, false, int( args[ 0 ] ), (1u << args[ 0 ])-1 };
  if( name == "none" && args.size() == 1 )
    return { true, true, int( args[ 0 ] ), 0 };
  if( name == "general" && args.size() == 2 )
    return { args[ 0 ] < (1l << args[ 1 ]), false, int( args[ 1 ] ), unsigned( args[ 0 ] ) };
  return { false, false, 0, 0 };
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const int maxDim = (ex.thorough() ? 18 : 14);

  for( int dim = 0; dim <= maxDim; ++dim )
  {
    for( unsigned w = 0; w < (1u << dim); ++w )
      ex.run( mc::str( "name of %u/%d", w, dim ), [ & ] {
          const GeometryType gt( w, dim );
          const std::string s = Dune::to_string( gt );
          ex.outcome( s );
          ex.expectf( s == nameOf( dim, w ), "named %s", s.c_str() );
          const GeometryType back = Dune::geometryTypeFromString( s );
          ex.expect( back == gt, "read back as another type" );
          same( ex, back, dim, w, false, "read back" );
          same( ex, Dune::geometryTypeFromString( mc::str( "general(%u,%d)", w, dim ) ), dim, w, false, "general" );
        } );
    ex.run( mc::str( "name of none of dimension %d", dim ), [ & ] {
        const GeometryType gt = GT::none( dim );
        const std::string s = Dune::to_string( gt );
        ex.expectf( s == mc::str( "none(%d)", dim ), "named %s", s.c_str() );
        ex.expect( Dune::geometryTypeFromString( s ) == gt, "read back as another type" );
        same( ex, Dune::geometryTypeFromString( s ), dim, 0, true, "read back" );
      } );
  }

  // texts
  const char *names[] = { "cube", "general", "hexahedron", "line", "none", "prism", "pyramid", "quadrilateral", "simplex", "tetrahedron", "triangle", "vertex",
                          "", "a", "cub", "cubes", "Cube", "lin", "lines", "zebra", "prisma", "vertex ", " vertex", "polygon", "~" };
  const char *open[] = { "(", "( ", "(   " };
  const char *sep[] = { ",", ", ", " ,", "  ,  " };
  const char *close[] = { ")", " )" };
  for( const char *name : names )
  {
    ex.run( mc::str( "text '%s' without arguments", name ), [ & ] {
        const Expect e = denote( name, {} );
        bool ok = true;
        GeometryType gt;
        try { gt = Dune::geometryTypeFromString( name ); } catch( const Dune::Exception & ) { ok = false; }
        ex.expectf( ok == e.valid, "%s", ok ? "accepted" : "refused" );
        if( ok && e.valid )
          same( ex, gt, e.dim, e.id, e.none, "type" );
        ex.outcome( ok ? "accepted" : "refused" );
      } );
    for( int n = 1; n <= 3; ++n )
      for( int a = 0; a <= 5; ++a )
        for( int b = 0; b <= (n > 1 ? 5 : 0); ++b )
          ex.run( mc::str( "text '%s' with %d arguments %d %d", name, n, a, b ), [ & ] {
              for( const char *o : open )
                for( const char *s : sep )
                  for( const char *c : close )
                  {
                    std::string text = std::string( name ) + o + std::to_string( a );
                    std::vector< long > args = { a };
                    if( n > 1 )
                    {
                      text += s + std::to_string( b );
                      args.push_back( b );
                    }
                    if( n > 2 )
                    {
                      text += std::string( s ) + "1";
                      args.push_back( 1 );
                    }
                    text += c;
                    const Expect e = denote( name, args );
                    bool ok = true;
                    GeometryType gt;
                    try { gt = Dune::geometryTypeFromString( text ); } catch( const Dune::Exception & ) { ok = false; }
                    ex.expectf( ok == e.valid, "'%s' %s", text.c_str(), ok ? "accepted" : "refused" );
                    if( ok && e.valid )
                      same( ex, gt, e.dim, e.id, e.none, text.c_str() );
                    ex.outcome( ok ? "accepted" : "refused" );
                  }
            } );
    // broken lists are refused
    for( const char *bad : { "(", "( ", "(1", "(1,", "(1, ", "(,1)", "(1,,2)", "(1,)", "(,)" } )
      ex.run( mc::str( "text '%s%s'", name, bad ), [ & ] {
          bool ok = true;
          try { Dune::geometryTypeFromString( std::string( name ) + bad ); } catch( const Dune::Exception & ) { ok = false; }
          ex.expect( !ok, "accepted" );
        } );
  }

  // vertex counts
  for( unsigned dim = 0; dim <= 8; ++dim )
    for( unsigned n = 0; n <= 300; ++n )
      ex.run( mc::str( "dimension %u with %u vertices", dim, n ), [ & ] {
          // the types of this dimension with this number of vertices
          std::vector< unsigned > ids;
          if( dim <= 3 )
            for( unsigned w = 0; w < (1u << dim); w += 2 )
              if( model::cell( dim, w ).corners.size() == n )
                ids.push_back( w );
          if( dim == 0 )
          {
            ids.clear();
            if( n == 1 )
              ids.push_back( 0 );
          }
          if( dim <= 1 && ids.empty() )
            return; // not asked
          bool ok = true;
          GeometryType gt;
          try { gt = Dune::geometryTypeFromVertexCount( dim, n ); } catch( const Dune::NotImplemented & ) { ok = false; }
          ex.expectf( ok == (ids.size() == 1), "%s", ok ? "accepted" : "refused" );
          if( ok && ids.size() == 1 )
            same( ex, gt, dim, ids[ 0 ], false, "type" );
          ex.outcome( ok ? mc::str( "%u", gt.id() ) : "refused" );
        } );
  return ex.finish();
}
