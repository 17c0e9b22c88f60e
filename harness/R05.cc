// Concurrent first uses of the reference elements.
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "common.hh"
#include "concurrent.hh"

using Dune::GeometryType;
using concurrent::Answer;
using concurrent::Operation;

// read everything a reference element tells
template< class RefElement >
static void read ( const RefElement &r, Answer &a )
{
  constexpr int dim = RefElement::dimension;
  typename RefElement::Coordinate x( 0.25 );
  a.mix( r.type().id() );
  a.value( r.volume() );
  a.mix( r.checkInside( x ) );
  for( int c = 0; c <= dim; ++c )
  {
    a.mix( r.size( c ) );
    for( int i = 0; i < r.size( c ); ++i )
    {
      a.mix( r.type( i, c ).id() );
      a.vector( r.position( i, c ) );
      for( int cc = c; cc <= dim; ++cc )
      {
        a.mix( r.size( i, c, cc ) );
        for( int k = 0; k < r.size( i, c, cc ); ++k )
          a.mix( r.subEntity( i, c, k, cc ) );
        a.mix( r.subEntities( i, c, cc ).contains( 0 ) );
      }
    }
  }
  if constexpr( dim > 0 )
  {
    for( int i = 0; i < r.size( 1 ); ++i )
      a.vector( r.integrationOuterNormal( i ) );
    const auto face = r.template geometry< 1 >( 0 );
    a.vector( face.center() );
    a.value( face.volume() );
  }
  const auto all = r.template geometry< 0 >( 0 );
  a.vector( all.corner( 0 ) );
}

template< class ct, int dim >
static Operation general ( const char *ctName, unsigned w )
{
  return { mc::str( "general:%s%u/%d", ctName, w, dim ), [ = ] ( Answer &a ) {
      const auto &r = Dune::ReferenceElements< ct, dim >::general( GeometryType( w, dim ) );
      a.address = &r;
      read( r, a );
    } };
}

template< class ct, int dim >
static Operation simplex ( const char *ctName )
{
  return { mc::str( "simplex:%s%d", ctName, dim ), [] ( Answer &a ) {
      const auto &r = Dune::ReferenceElements< ct, dim >::simplex();
      a.address = &r;
      read( r, a );
    } };
}

template< class ct, int dim >
static Operation cube ( const char *ctName )
{
  return { mc::str( "cube:%s%d", ctName, dim ), [] ( Answer &a ) {
      const auto &r = Dune::ReferenceElements< ct, dim >::cube();
      a.address = &r;
      read( r, a );
    } };
}

template< class ct, int dim >
static Operation all ( const char *ctName )
{
  return { mc::str( "all:%s%d", ctName, dim ), [] ( Answer &a ) {
      const auto end = Dune::ReferenceElements< ct, dim >::end();
      for( auto it = Dune::ReferenceElements< ct, dim >::begin(); it != end; ++it )
        read( *it, a );
    } };
}

template< class ct, int dim >
static Operation copied ( const char *ctName, unsigned w )
{
  return { mc::str( "copy:%s%u/%d", ctName, w, dim ), [ = ] ( Answer &a ) {
      const auto r = Dune::referenceElement< ct, dim >( GeometryType( w, dim ) );
      const auto s = r;
      a.mix( s == r );
      a.mix( s == Dune::ReferenceElements< ct, dim >::general( GeometryType( w, dim ) ) );
      read( s, a );
    } };
}

// a geometry that looks up its reference element
template< class ct, int dim >
static Operation geometry ( const char *ctName, unsigned w )
{
  return { mc::str( "geometry:%s%u/%d", ctName, w, dim ), [ = ] ( Answer &a ) {
      std::vector< Dune::FieldVector< ct, dim > > corners;
      corners.reserve( 1 << dim );
      const GeometryType gt( w, dim );
      const auto &r = Dune::ReferenceElements< ct, dim >::general( gt );
      for( int i = 0; i < r.size( dim ); ++i )
        corners.push_back( r.position( i, dim ) );
      const Dune::MultiLinearGeometry< ct, dim, dim > g( gt, corners );
      a.vector( g.center() );
      a.vector( g.local( g.center() ) );
      a.value( g.volume() );
      read( referenceElement( g ), a );
    } };
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  std::vector< Operation > alphabet = {
    general< double, 0 >( "", 0 ), simplex< double, 0 >( "" ), all< double, 0 >( "" ),
    general< double, 1 >( "", 1 ), cube< double, 1 >( "" ), copied< double, 1 >( "", 0 ), geometry< double, 1 >( "", 1 ),
    general< double, 2 >( "", 0 ), general< double, 2 >( "", 3 ), simplex< double, 2 >( "" ), cube< double, 2 >( "" ), all< double, 2 >( "" ), geometry< double, 2 >( "", 3 ),
    general< double, 3 >( "", 3 ), general< double, 3 >( "", 5 ), cube< double, 3 >( "" ), copied< double, 3 >( "", 0 ), geometry< double, 3 >( "", 3 ),
    simplex< float, 2 >( "f" ), copied< float, 3 >( "f", 7 ) };
  if( t )
  {
    alphabet.push_back( simplex< double, 3 >( "" ) );
    alphabet.push_back( all< double, 3 >( "" ) );
    alphabet.push_back( general< double, 4 >( "", 6 ) );
    alphabet.push_back( cube< double, 4 >( "" ) );
    alphabet.push_back( general< long double, 2 >( "l", 3 ) );
  }
  const int n = int( alphabet.size() );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ j ] } }, t ? 3 : 2 );
  for( int i = 0; i < n; ++i )
  {
    concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ] }, { alphabet[ i ] } }, t ? 2 : 1 );
    for( int j = 0; j < n; ++j )
      if( j != i )
        concurrent::scenario( ex, { { alphabet[ i ] }, { alphabet[ i ], alphabet[ j ] } }, 1 );
  }
  return ex.finish();
}
