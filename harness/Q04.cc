// Concurrent requests for quadrature rules.
#include <dune/geometry/quadraturerules.hh>
#include "concurrent.hh"

using Dune::GeometryType;
using concurrent::Answer;
using concurrent::Operation;
namespace QT = Dune::QuadratureType;

template< class ct, int dim >
static Operation request ( const char *ctName, unsigned w, int p, QT::Enum qt )
{
  return { mc::str( "%s%u/%d:%d:%d", ctName, w, dim, int( qt ), p ), [ = ] ( Answer &a ) {
      try
      {
        const Dune::QuadratureRule< ct, dim > &rule = Dune::QuadratureRules< ct, dim >::rule( GeometryType( w, dim ), p, qt );
        a.address = &rule;
        a.mix( rule.order() );
        a.mix( rule.size() );
        a.mix( rule.type().id() );
        a.mix( rule.type().dim() );
        for( const auto &q : rule )
        {
          a.vector( q.position() );
          a.value( q.weight() );
        }
      }
      catch( const Dune::QuadratureOrderOutOfRange & ) { a.thrown = "QuadratureOrderOutOfRange"; }
    } };
}

int main ( int argc, char **argv )
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  const Operation line0 = request< double, 1 >( "", 1, 0, QT::GaussLegendre ), line3 = request< double, 1 >( "", 1, 3, QT::GaussLegendre ),
                  square3 = request< double, 2 >( "", 3, 3, QT::GaussLegendre );
  std::vector< Operation > alphabet = {
    request< double, 0 >( "", 0, 0, QT::GaussLegendre ),
    line0, line3,
    request< double, 1 >( "", 0, 3, QT::GaussLegendre ),        // the same line with its other spelling
    request< double, 1 >( "", 1, 3, QT::GaussLobatto ),
    request< double, 1 >( "", 1, 3, QT::GaussJacobi_n_0 ),
    request< double, 1 >( "", 1, 3, QT::GaussRadauLeft ),
    request< double, 1 >( "", 1, 1000, QT::GaussLegendre ),     // not available
    request< double, 2 >( "", 0, 3, QT::GaussLegendre ),        // tabulated triangle
    square3,                                                    // from the line
    request< double, 3 >( "", 0, 3, QT::GaussLegendre ),        // tabulated tetrahedron
    request< double, 3 >( "", 5, 2, QT::GaussLegendre ),        // tabulated prism
    request< double, 3 >( "", 3, 1, QT::GaussLegendre ),        // pyramid, from the square
    request< float, 2 >( "f", 3, 3, QT::GaussLegendre ),
  };
  if( t )
  {
    alphabet.push_back( request< double, 2 >( "", 0, 20, QT::GaussLegendre ) );
    alphabet.push_back( request< double, 2 >( "", 3, 2, QT::GaussLobatto ) );
    alphabet.push_back( request< double, 3 >( "", 7, 1, QT::GaussLegendre ) );
    alphabet.push_back( request< double, 3 >( "", 7, 1, QT::GaussJacobi_n_0 ) );
    alphabet.push_back( request< double, 1 >( "", 1, 3, QT::GaussRadauRight ) );
    alphabet.push_back( request< double, 0 >( "", 0, 5, QT::GaussLobatto ) );
  }
  const int n = int( alphabet.size() );
  // two threads, one request each: all pairs
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ j ] } }, t ? 3 : 2 );
  // two threads that build rules of different order on the same path at the same time
  const QT::Enum kinds[] = { QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight };
  auto siblings = [ & ] ( auto dim, unsigned w, int p, int q, QT::Enum qt, int bound ) {
      concurrent::scenario( ex, { { request< double, dim >( "", w, p, qt ) }, { request< double, dim >( "", w, q, qt ) } }, bound );
    };
  typedef std::integral_constant< int, 1 > One;
  typedef std::integral_constant< int, 2 > Two;
  typedef std::integral_constant< int, 3 > Three;
  for( QT::Enum qt : kinds )
  {
    siblings( One(), 1, 2, 5, qt, t ? 2 : 1 );
    siblings( One(), 1, 40, 41, qt, t ? 2 : 1 );
  }
  for( QT::Enum qt : { QT::GaussLegendre, QT::GaussJacobi_n_0, QT::GaussLobatto } )
  {
    for( unsigned w : { 0u, 3u } )
    {
      siblings( Two(), w, 2, 3, qt, t ? 2 : 1 );
      siblings( Two(), w, 14, 15, qt, t ? 2 : 1 );
    }
    for( unsigned w : { 0u, 3u, 5u, 7u } )
    {
      siblings( Three(), w, 1, 2, qt, t ? 2 : 1 );
      siblings( Three(), w, 6, 7, qt, t ? 2 : 1 );
    }
  }
  concurrent::scenario( ex, { { request< double, 3 >( "", 3, 2, QT::GaussLegendre ) }, { request< double, 2 >( "", 0, 14, QT::GaussLegendre ) } }, 1 );
  concurrent::scenario( ex, { { request< float, 3 >( "f", 3, 2, QT::GaussLegendre ) }, { request< float, 3 >( "f", 3, 3, QT::GaussLegendre ) } }, 1 );
  // two threads, two requests each over a small alphabet
  const std::vector< Operation > small = { line0, line3, square3 };
  for( const Operation &a : small )
    for( const Operation &b : small )
      for( const Operation &c : small )
        for( const Operation &d : small )
          concurrent::scenario( ex, { { a, b }, { c, d } }, 1 );
  // three threads
  for( int i = 0; i < n; ++i )
  {
    concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ i ] } }, t ? 2 : 1 );
    for( int j = i+1; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ j ] } }, t ? 1 : 0 );
  }
  return ex.finish();
}
