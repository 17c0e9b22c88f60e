// Order limits and request histories of the quadrature rule container.
#include "quad.hh"
#include "forked.hh"

using Dune::GeometryType;
using namespace quad;

// one request
struct Request
{
  int dim;
  unsigned w;
  int p;
  QT::Enum qt;
  int basic; // -1: by type, otherwise by BasicType
  std::string name () const
  {
    return basic < 0 ? mc::str( "%u/%d:%d:%d", w, dim, int( qt ), p ) : mc::str( "basic%d/%d:%d:%d", basic, dim, int( qt ), p );
  }
};

static GeometryType::BasicType basicOf ( int b ) { return static_cast< GeometryType::BasicType >( b ); }

// serve a request: returns an address and a digest, or the exception
struct Answer { const void *address; std::string text; };

template< int dim >
static Answer serveDim ( const Request &r, std::vector< std::function< std::string () > > *again )
{
  typedef Dune::QuadratureRules< double, dim > Rules;
  try
  {
    const Dune::QuadratureRule< double, dim > &rule
      = (r.basic < 0 ? Rules::rule( GeometryType( r.w, dim ), r.p, r.qt ) : Rules::rule( basicOf( r.basic ), r.p, r.qt ));
    auto text = [ &rule ] { return mc::str( "type %u order %d points %d digest %016llx", rule.type().id(), rule.order(), int( rule.size() ), (unsigned long long)digest( rule ) ); };
    if( again )
      again->push_back( text );
    return { &rule, text() };
  }
  catch( const Dune::QuadratureOrderOutOfRange & )
  {
    return { nullptr, "QuadratureOrderOutOfRange" };
  }
  catch( const Dune::RangeError & )
  {
    return { nullptr, "RangeError" };
  }
}

static Answer serve ( const Request &r, std::vector< std::function< std::string () > > *again = nullptr )
{
  switch( r.dim )
  {
  case 0: return serveDim< 0 >( r, again );
  case 1: return serveDim< 1 >( r, again );
  case 2: return serveDim< 2 >( r, again );
  case 3: return serveDim< 3 >( r, again );
  default: return serveDim< 4 >( r, again );
  }
}

static int maxOrder ( int dim, unsigned w, QT::Enum qt )
{
  const GeometryType gt( w, dim );
  switch( dim )
  {
  case 0: return Dune::QuadratureRules< double, 0 >::maxOrder( gt, qt );
  case 1: return Dune::QuadratureRules< double, 1 >::maxOrder( gt, qt );
  case 2: return Dune::QuadratureRules< double, 2 >::maxOrder( gt, qt );
  case 3: return Dune::QuadratureRules< double, 3 >::maxOrder( gt, qt );
  default: return Dune::QuadratureRules< double, 4 >::maxOrder( gt, qt );
  }
}

// what a fresh process answers
static const std::string &alone ( const Request &r )
{
  static std::map< std::string, std::string > memo;
  auto it = memo.find( r.name() );
  if( it == memo.end() )
  {
    auto res = forked::run( [ & ] { return serve( r ).text; } );
    it = memo.emplace( r.name(), res.ok ? res.text : "CRASH " + res.how ).first;
  }
  return it->second;
}

static void history ( mc::Explorer &ex, const std::vector< Request > &h )
{
  std::string key = "history";
  for( const Request &r : h )
    key += " " + r.name();
  ex.run( key, [ & ] {
      std::vector< std::string > want;
      for( const Request &r : h )
        want.push_back( alone( r ) );
      const auto res = forked::run( [ & ] () -> std::string {
          std::vector< Answer > got;
          std::vector< std::function< std::string () > > again;
          std::vector< std::string > held;
          for( std::size_t i = 0; i < h.size(); ++i )
          {
            const std::size_t before = again.size();
            got.push_back( serve( h[ i ], &again ) );
            if( again.size() > before )
              held.push_back( got.back().text );
            if( got.back().text != want[ i ] )
              return mc::str( "request %d (%s): got %s, a fresh process gives %s", int( i ), h[ i ].name().c_str(), got.back().text.c_str(), want[ i ].c_str() );
            for( std::size_t j = 0; j < i; ++j )
            {
              const bool same = (h[ i ].name() == h[ j ].name());
              if( same && got[ i ].address != got[ j ].address )
                return mc::str( "request %d and %d (%s) returned different objects", int( j ), int( i ), h[ i ].name().c_str() );
            }
            // rules handed out earlier are still what they were
            for( std::size_t j = 0; j < again.size(); ++j )
              if( again[ j ]() != held[ j ] )
                return mc::str( "rule %d handed out earlier has changed after request %d", int( j ), int( i ) );
          }
          return "";
        } );
      ex.step( 3*h.size() );
      ex.expectf( res.ok, "history %s", res.how.c_str() );
      ex.expectf( res.text.empty(), "%s", res.text.c_str() );
      for( const std::string &w : want )
        ex.outcome( w );
    } );
}

int main ( int argc, char **argv )
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  const QT::Enum all[] = { QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight };

  // histories in fresh processes; these come first, while no rule has been built in this process
  std::vector< Request > big, mid, small;
  for( int dim = 1; dim <= 3; ++dim )
    for( unsigned w : { 0u, (1u << dim)-1 } )
      for( QT::Enum qt : { QT::GaussLegendre, QT::GaussJacobi_n_0, QT::GaussLobatto } )
        for( int p : { -1, 0, 3, 9, 1000 } )
          big.push_back( Request{ dim, w, p, qt, -1 } );
  for( int p : { 0, 2, 5 } )
  {
    big.push_back( Request{ 3, 5, p, QT::GaussLegendre, -1 } );
    big.push_back( Request{ 3, 3, p, QT::GaussLegendre, -1 } );
    big.push_back( Request{ 3, 0, p, QT::GaussLegendre, int( GeometryType::prism ) } );
    big.push_back( Request{ 2, 0, p, QT::GaussLegendre, int( GeometryType::cube ) } );
    big.push_back( Request{ 1, 1, p, QT::GaussJacobi_1_0, -1 } );
    big.push_back( Request{ 1, 1, p, QT::GaussJacobi_2_0, -1 } );
  }
  big.push_back( Request{ 0, 0, 3, QT::GaussLegendre, -1 } );
  for( int dim = 1; dim <= 3; ++dim )
    for( QT::Enum qt : { QT::GaussLegendre, QT::GaussJacobi_n_0 } )
      for( int p : { -1, 2, 14, 1000 } )
        mid.push_back( Request{ dim, 0, p, qt, -1 } );
  for( int dim = 1; dim <= 2; ++dim )
    for( int p : { 3, 4, 1000 } )
      small.push_back( Request{ dim, 0, p, QT::GaussLegendre, -1 } );
  small.push_back( Request{ 2, 3, 4, QT::GaussLegendre, -1 } );
  small.push_back( Request{ 1, 1, 4, QT::GaussRadauLeft, -1 } );

  auto words = [ & ] ( const std::vector< Request > &alphabet, int length ) {
      std::vector< Request > h;
      std::function< void () > rec = [ & ] {
          if( int( h.size() ) == length )
            return history( ex, h );
          for( const Request &r : alphabet )
          {
            h.push_back( r );
            rec();
            h.pop_back();
          }
        };
      rec();
    };
  words( big, 1 );
  words( big, 2 );
  words( mid, 3 );
  words( small, 4 );
  words( small, 5 );
  if( t )
  {
    words( small, 6 );
    words( mid, 4 );
  }

  // limits: orders from below zero to beyond every table; on lines and polygons all of them
  auto orders = [ & ] ( int dim ) {
      std::vector< int > r{ -1000000, -100, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 28, 29, 30, 31, 32, 33, 58, 59, 60, 61, 62, 63, 64, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 65535, 65536, 1000000, 2147483647 };
      if( dim <= 2 )
        for( int p = -16; p <= 300; ++p )
          if( std::find( r.begin(), r.end(), p ) == r.end() )
            r.push_back( p );
      return r;
    };
  for( int dim = 0; dim <= 4; ++dim )
    for( unsigned w = 0; w < (1u << dim); ++w )
      for( QT::Enum qt : all )
        for( int p : orders( dim ) )
        {
          // large rules in many dimensions only differ in size
          if( dim == 4 && p > 24 && p <= 127 )
            continue;
          if( dim == 3 && p > 64 && p <= 127 && !t )
            continue;
          ex.run( mc::str( "limit %u/%d family %d order %d", w, dim, int( qt ), p ), [ & ] {
              const int top = maxOrder( dim, w, qt );
              ex.expectf( top >= 30 - std::max( 0, dim-1 ), "maxOrder() = %d", top );
              const Request r{ dim, w, p, qt, -1 };
              std::vector< std::function< std::string () > > again;
              const Answer a = serve( r, &again );
              const bool valid = (dim == 0) || (p >= 0 && p <= top);
              ex.expectf( valid == (a.address != nullptr), "answer %s, but orders 0 to %d are advertised", a.text.c_str(), top );
              if( !valid )
                ex.expectf( a.text == "QuadratureOrderOutOfRange", "answer %s", a.text.c_str() );
              const Answer b = serve( r );
              ex.expectf( a.text == b.text && a.address == b.address, "asked again: %s instead of %s", b.text.c_str(), a.text.c_str() );
              ex.outcome( a.address ? "rule" : a.text );
            } );
        }

  // selection by basic type: the same object as by geometry type, or a range error
  for( int dim = 0; dim <= 4; ++dim )
    for( int b : { GeometryType::simplex, GeometryType::cube, GeometryType::pyramid, GeometryType::prism, GeometryType::extended, GeometryType::none } )
      for( QT::Enum qt : { QT::GaussLegendre, QT::GaussJacobi_n_0, QT::GaussLobatto } )
        for( int p = -1; p <= 12; ++p )
          ex.run( mc::str( "basic type %d dimension %d family %d order %d", b, dim, int( qt ), p ), [ & ] {
              int w = -1;
              if( b == GeometryType::simplex )
                w = 0;
              else if( b == GeometryType::cube )
                w = (1 << dim) - 1;
              else if( b == GeometryType::pyramid && dim == 3 )
                w = 3;
              else if( b == GeometryType::prism && dim == 3 )
                w = 5;
              const Answer a = serve( Request{ dim, 0, p, qt, b } );
              if( w < 0 )
                ex.expectf( a.text == "RangeError", "answer %s", a.text.c_str() );
              else
              {
                // the spelling of a simplex of positive dimension is not fixed by its first bit
                const Answer c = serve( Request{ dim, unsigned( w ), p, qt, -1 } );
                const Answer d = serve( Request{ dim, unsigned( w ) ^ (dim > 0 ? 1u : 0u), p, qt, -1 } );
                auto cut = [] ( std::string s ) { return s.substr( s.find( "order" ) == std::string::npos ? 0 : s.find( "order" ), s.find( "digest" ) == std::string::npos ? std::string::npos : s.find( "digest" ) - s.find( "order" ) ); };
                ex.expectf( cut( a.text ) == cut( c.text ), "%s instead of %s", a.text.c_str(), c.text.c_str() );
                ex.expectf( a.address == c.address || a.address == d.address, "another object than the rule for this type" );
              }
              ex.outcome( a.text == "RangeError" ? a.text : a.address ? "rule" : a.text );
            } );
  return ex.finish();
}
