// Vertex orders of a cell and of all of its subentities.
#include <forward_list>
#include <limits>
#include <numeric>
#include <dune/geometry/generalvertexorder.hh>
#include "common.hh"

using Dune::GeometryType;

// rank of every entry among the values of the range
static std::vector< long > ranks ( const std::vector< long > &v )
{
  std::vector< long > sorted = v, r;
  std::sort( sorted.begin(), sorted.end() );
  for( long x : v )
    r.push_back( std::lower_bound( sorted.begin(), sorted.end(), x ) - sorted.begin() );
  return r;
}

template< int dim, class Index, class Id >
static void check ( mc::Explorer &ex, unsigned w, const std::vector< Id > &ids, bool full )
{
  typedef Dune::GeneralVertexOrder< dim, Index > Order;
  const GeometryType gt( w, dim );
  const auto re = Dune::referenceElement< double, dim >( gt );
  const Order order( gt, ids.begin(), ids.end() );
  ex.expect( order.type() == gt, "type()" );
  const std::vector< long > all = ranks( std::vector< long >( ids.begin(), ids.end() ) );
  for( int c = 0; c <= dim; ++c )
    for( int i = 0; i < re.size( c ); ++i )
    {
      const int n = re.size( i, c, dim );
      std::vector< long > want;
      for( int k = 0; k < n; ++k )
        want.push_back( all[ re.subEntity( i, c, k, dim ) ] );
      // iteration
      const auto b = order.begin( c, i ), e = order.end( c, i );
      std::vector< long > got;
      for( auto it = b; it != e && got.size() < 100; ++it )
        got.push_back( long( *it ) );
      ex.expectf( got == want, "indices of subentity %d of codimension %d", i, c );
      // reduced order
      std::vector< Index > red( 3, Index( 7 ) );
      order.getReduced( c, i, red );
      ex.expectf( std::vector< long >( red.begin(), red.end() ) == ranks( want ), "reduced order of subentity %d of codimension %d", i, c );
      if( !full )
        continue;
      // random access
      ex.expect( e - b == n && b - e == -n, "distance of the end" );
      for( int k = 0; k <= n; ++k )
      {
        auto it = b;
        it += k;
        auto jt = e;
        jt -= n-k;
        ex.expect( it == jt && !(it != jt) && it == b+k && jt == e-(n-k), "positions reached from both ends" );
        ex.expect( (it == e) == (k == n) && (it == b) == (k == 0), "comparison with the ends" );
        ex.expect( it - b == k && e - it == n-k && b - it == -k, "distances" );
        for( int l = 0; l <= n; ++l )
        {
          const auto lt = b + l;
          ex.expect( lt - it == l-k && (it < lt) == (k < l) && (it <= lt) == (k <= l) && (it > lt) == (k > l) && (it >= lt) == (k >= l) && (it == lt) == (k == l), "order of positions" );
          if( l < n )
            ex.expect( long( it[ l-k ] ) == want[ l ], "indexed access" );
        }
        if( k > 0 )
        {
          auto p = it;
          --p;
          ex.expect( p == b+(k-1) && long( *p ) == want[ k-1 ], "decrement" );
          auto q = it--;
          ex.expect( q - it == 1, "postfix decrement" );
          auto r = it++;
          ex.expect( it - r == 1 && it == b+k, "postfix increment" );
        }
      }
    }
}

// positions in different subentities are different positions
template< int dim >
static void compare ( mc::Explorer &ex, unsigned w, const std::vector< int > &ids )
{
  const GeometryType gt( w, dim );
  const auto re = Dune::referenceElement< double, dim >( gt );
  const Dune::GeneralVertexOrder< dim > order( gt, ids.begin(), ids.end() ), copy( order );
  for( int c = 0; c <= dim; ++c )
    for( int i = 0; i < re.size( c ); ++i )
      ex.expectf( order.begin( c, i ) != copy.begin( c, i ), "iterators of two orders compare equal in subentity (%d,%d)", i, c );
  for( int c = 0; c <= dim; ++c )
    for( int i = 0; i < re.size( c ); ++i )
      for( int d = 0; d <= dim; ++d )
        for( int j = 0; j < re.size( d ); ++j )
          for( int k = 0; k < std::min( re.size( i, c, dim ), re.size( j, d, dim ) ); ++k )
          {
            const auto a = order.begin( c, i ) + k, b = order.begin( d, j ) + k;
            const bool same = (c == d && i == j);
            ex.expectf( (a == b) == same && (a != b) == !same, "comparison of position %d in subentities (%d,%d) and (%d,%d)", k, i, c, j, d );
          }
}

// ids need not be numbers, and their range nothing but to be passed several times
template< int dim >
static void names ( mc::Explorer &ex, unsigned w, const std::vector< int > &word )
{
  std::forward_list< std::string > ids;
  for( auto it = word.rbegin(); it != word.rend(); ++it )
    ids.push_front( mc::str( "id %c", char( 'A' + *it ) ) );
  const std::vector< long > want = ranks( std::vector< long >( word.begin(), word.end() ) );
  const Dune::GeneralVertexOrder< dim, short > order( GeometryType( w, dim ), ids.cbegin(), ids.cend() );
  std::vector< short > red;
  order.getReduced( 0, 0, red );
  ex.expect( std::vector< long >( red.begin(), red.end() ) == want, "reduced order of ids that are no numbers" );
  int k = 0;
  for( auto it = order.begin( 0, 0 ); it != order.end( 0, 0 ) && k < int( want.size() ); ++it, ++k )
    ex.expectf( *it == want[ k ], "rank of id %d, which is no number", k );
  ex.expect( k == int( want.size() ), "number of ranks of ids that are no numbers" );
}

// all words over {0,...,letters-1}
template< class F >
static void words ( int length, int letters, F &&f )
{
  std::vector< int > w( length, 0 );
  for( ;; )
  {
    f( w );
    int k = 0;
    while( k < length && ++w[ k ] == letters )
      w[ k++ ] = 0;
    if( k == length )
      return;
  }
}

template< int dim >
static void explore ( mc::Explorer &ex, bool t )
{
  for( unsigned w = 0; w < (1u << dim); ++w )
  {
    const int n = int( model::cell( dim, w ).corners.size() );
    auto one = [ & ] ( const std::vector< int > &word, bool full ) {
        // spread ids, in both directions and with negative numbers
        std::vector< unsigned long > a;
        std::vector< long > b;
        std::vector< unsigned char > c;
        for( int x : word )
        {
          a.push_back( 0xfffffffffffff000ul*(x > n/2) + 17ul*x + 3 );
          b.push_back( 1000000007l*x - 3000000000l );
          c.push_back( static_cast< unsigned char >( 255 - 9*x ) );
        }
        check< dim, int >( ex, w, b, full );
        std::vector< long > la;
        // ids of type unsigned long are ranked as unsigned numbers
        {
          std::vector< unsigned long > s = a;
          std::sort( s.begin(), s.end() );
          std::vector< long > r;
          for( auto x : a )
            r.push_back( std::lower_bound( s.begin(), s.end(), x ) - s.begin() );
          std::vector< std::size_t > red( a.size() );
          Dune::reduceOrder( a.begin(), a.end(), red.begin() );
          ex.expect( std::vector< long >( red.begin(), red.end() ) == r, "reduced order of large ids" );
          la = r;
        }
        check< dim, std::size_t >( ex, w, la, false );
        check< dim, unsigned char >( ex, w, c, false );
        std::uint64_t h = 0;
        for( long x : la )
          h = h*31 + x;
        ex.outcome( h*2654435761u );
      };
    // ties: all words with few letters; orders: all permutations, up to a bound on the number of vertices
    const int letters = (n <= 5 ? n : n == 6 ? 6 : n <= 8 ? (t ? 4 : 3) : n <= 10 && t ? 3 : 2);
    const int maxWord = (dim < 5 ? 16 : 8);
    if( n <= maxWord )
      for( int first = 0; first < letters; ++first )
        for( int second = 0; second < (n > 1 ? letters : 1); ++second )
          ex.run( mc::str( "ties %u/%d: %d %d ...", w, dim, first, second ), [ & ] {
              words( std::max( 0, n-2 ), letters, [ & ] ( const std::vector< int > &rest ) {
                  std::vector< int > word = { first };
                  if( n > 1 )
                    word.push_back( second );
                  word.insert( word.end(), rest.begin(), rest.end() );
                  one( word, n <= 4 );
                } );
            } );
    if( n <= (dim == 5 ? 7 : t ? 10 : 9) )
      for( int first = 0; first < n; ++first )
        ex.run( mc::str( "orders %u/%d: %d ...", w, dim, first ), [ & ] {
            std::vector< int > p;
            for( int i = 0; i < n; ++i )
              if( i != first )
                p.push_back( i );
            do
            {
              std::vector< int > word = { first };
              word.insert( word.end(), p.begin(), p.end() );
              one( word, false );
            }
            while( std::next_permutation( p.begin(), p.end() ) );
          } );
    // all transpositions and rotations of the natural order, both directions, for every number of vertices; with iterators
    for( int dir = 0; dir < 2; ++dir )
      ex.run( mc::str( "iterators %u/%d direction %d", w, dim, dir ), [ & ] {
          std::vector< int > base( n );
          std::iota( base.begin(), base.end(), 0 );
          if( dir )
            std::reverse( base.begin(), base.end() );
          one( base, true );
          compare< dim >( ex, w, base );
          names< dim >( ex, w, base );
          for( int i = 0; i < n; ++i )
            for( int j = 0; j < i; ++j )
            {
              auto word = base;
              std::swap( word[ i ], word[ j ] );
              one( word, i+j == n-1 );
            }
          for( int i = 1; i < n; ++i )
          {
            auto word = base;
            std::rotate( word.begin(), word.begin()+i, word.end() );
            one( word, false );
            names< dim >( ex, w, word );
            word[ 0 ] = word[ n-1 ];
            names< dim >( ex, w, word );
          }
        } );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  const bool t = ex.thorough();
  explore< 0 >( ex, t );
  explore< 1 >( ex, t );
  explore< 2 >( ex, t );
  explore< 3 >( ex, t );
  explore< 4 >( ex, t );
  explore< 5 >( ex, t );
  return ex.finish();
}
