// Combinatorics of the reference elements.
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

using Dune::GeometryType;

template< class ct, int dim >
void explore ( mc::Explorer &ex, const char *ctName )
{
  typedef Dune::ReferenceElements< ct, dim > RefElements;
  ex.run( mc::str( "all %s dim=%d", ctName, dim ), [ & ] {
      std::map< unsigned, int > seen;
      for( auto it = RefElements::begin(); it != RefElements::end(); ++it )
      {
        ex.expectf( int( it->type().dim() ) == dim, "iteration yields an element of dimension %d", int( it->type().dim() ) );
        ++seen[ model::canonicalId( it->type().id() ) ];
        ex.expect( it->size( 0 ) == 1, "size(0)" );
      }
      for( unsigned w = 0; w < (1u << dim); ++w )
        ex.expectf( seen.count( model::canonicalId( w ) ) == 1, "iteration misses type %u/%d", w, dim );
    } );
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const model::Cell &m = model::cell( dim, w );
    ex.run( mc::str( "element %s %u/%d", ctName, w, dim ), [ & ] {
        const GeometryType gt( w, dim );
        const auto r = RefElements::general( gt );
        ex.expect( r.type() == gt, "type()" );
        ex.expect( Dune::referenceElement< ct, dim >( gt ) == r && !(Dune::referenceElement< ct, dim >( gt ) != r), "referenceElement(type)" );
        ex.expect( Dune::referenceElement< ct >( gt, Dune::Dim< dim >() ) == r, "referenceElement(type, dim)" );
        ex.expect( Dune::referenceElement( ct(), gt, Dune::Dim< dim >() ) == r, "referenceElement(ctype, type, dim)" );
        const auto copy = r;
        ex.expect( copy == r && hash_value( copy ) == hash_value( r ), "copies are equal" );
        for( unsigned v = 0; v < (1u << dim); ++v )
        {
          const auto q = RefElements::general( GeometryType( v, dim ) );
          // the two spellings of a type may have an element each
          if( v == w || !model::sameShape( w, v ) )
            ex.expectf( (q == r) == (v == w) && (q != r) == (v != w), "comparison with the element of type %u", v );
          ex.expectf( !(q == r) || hash_value( q ) == hash_value( r ), "hash value of the element of type %u", v );
        }
        if( gt.isSimplex() )
          ex.expect( RefElements::simplex().type() == gt, "simplex()" );
        if( gt.isCube() )
          ex.expect( RefElements::cube().type() == gt, "cube()" );
        for( int c = 0; c <= dim; ++c )
        {
          if( !ex.expectf( r.size( c ) == m.size( c ), "size(%d) = %d, model %d", c, r.size( c ), m.size( c ) ) )
            continue;
          for( int i = 0; i < m.size( c ); ++i )
          {
            const model::Face &f = m.faces[ c ][ i ];
            const model::Cell &fm = model::cell( f.dim, f.id );
            const GeometryType ft = r.type( i, c );
            ex.expectf( int( ft.dim() ) == dim-c && !ft.isNone() && model::sameShape( ft.id(), f.id ), "type(%d,%d) = %u/%d, model %u/%d", i, c, ft.id(), int( ft.dim() ), f.id, f.dim );
            for( int cc = 0; cc < c; ++cc )
            {
              const auto range = r.subEntities( i, c, cc );
              ex.expectf( r.size( i, c, cc ) == 0 && range.size() == 0 && !(range.begin() != range.end()), "(%d,%d) has sub-entities of codimension %d", i, c, cc );
              for( int n = 0; n < m.size( cc ); ++n )
                ex.expectf( !range.contains( n ), "subEntities(%d,%d,%d).contains(%d)", i, c, cc, n );
            }
            for( int cc = c; cc <= dim; ++cc )
            {
              if( !ex.expectf( r.size( i, c, cc ) == fm.size( cc-c ), "size(%d,%d,%d) = %d, model %d", i, c, cc, r.size( i, c, cc ), fm.size( cc-c ) ) )
                continue;
              std::vector< int > numbers;
              for( int ii = 0; ii < fm.size( cc-c ); ++ii )
              {
                std::set< int > vs;
                for( int v : fm.faces[ cc-c ][ ii ].verts )
                  vs.insert( f.verts[ v ] );
                const int want = m.find( cc, vs );
                const int got = r.subEntity( i, c, ii, cc );
                ex.expectf( got == want, "subEntity(%d,%d,%d,%d) = %d, model %d", i, c, ii, cc, got, want );
                numbers.push_back( want );
                if( ii < 16 )
                  ex.outcome( mc::str( "%d %d", cc, got ) );
              }
              // the range view
              const auto range = r.subEntities( i, c, cc );
              ex.expectf( int( range.size() ) == int( numbers.size() ), "subEntities(%d,%d,%d).size() = %d", i, c, cc, int( range.size() ) );
              std::vector< int > listed;
              for( auto n : range )
              {
                listed.push_back( int( n ) );
                if( listed.size() > numbers.size() )
                  break;
              }
              ex.expectf( listed == numbers, "subEntities(%d,%d,%d) lists other numbers", i, c, cc );
              for( int n = 0; n < m.size( cc ); ++n )
              {
                const bool in = std::find( numbers.begin(), numbers.end(), n ) != numbers.end();
                ex.expectf( range.contains( n ) == in, "subEntities(%d,%d,%d).contains(%d)", i, c, cc, n );
              }
            }
          }
        }
      } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  staticFor< 8 >( [ & ] ( auto d ) { if( d < 7 || ex.thorough() ) explore< double, d >( ex, "double" ); } );
  staticFor< 5 >( [ & ] ( auto d ) { explore< float, d >( ex, "float" ); } );
  return ex.finish();
}
