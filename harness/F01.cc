// Refinements tile the reference cell; their indices, vertices and centres are consistent.
#include "refine.hh"

using namespace refine;

static std::string mode;

// The tiling proper: 'corners' gives the integer corners of every element.
static void tiling ( mc::Explorer &ex, const Table &t, const std::vector< std::vector< IVec > > &corners, const char *what )
{
  const bool cube = (t.dim > 1 && !model::sameShape( t.sub, 0 ));
  const model::Cell &ref = model::cell( t.dim, t.sub );
  long long sum = 0;
  struct Side { int count; long long orientation; };
  std::map< std::vector< IVec >, Side > facets;
  std::vector< long long > dets;
  for( const auto &c : corners )
  {
    if( !ex.expectf( int( c.size() ) == int( ref.corners.size() ), "%s: element with %d corners", what, int( c.size() ) ) )
      return;
    // measure
    std::vector< IVec > m;
    for( int k = 0; k < t.dim; ++k )
    {
      IVec row;
      const int v = (cube ? (1 << k) : k+1);
      for( int j = 0; j < t.dim; ++j )
        row.push_back( c[ v ][ j ] - c[ 0 ][ j ] );
      m.push_back( row );
    }
    const long long dt = det( m );
    dets.push_back( dt );
    ex.expectf( dt != 0, "%s: degenerate element", what );
    sum += std::llabs( dt ) * (cube ? factorial( t.dim ) : 1);
    if( cube )
      // a parallelepiped: the other corners follow
      for( int v = 0; v < (1 << t.dim); ++v )
        for( int j = 0; j < t.dim; ++j )
        {
          long long x = c[ 0 ][ j ];
          for( int k = 0; k < t.dim; ++k )
            if( v & (1 << k) )
              x += m[ k ][ j ];
          ex.expectf( x == c[ v ][ j ], "%s: element is not a parallelepiped", what );
        }
    for( const IVec &x : c )
      ex.expectf( inside( t.dim, t.cell, x, t.n ), "%s: corner outside the cell", what );
    // facets with the side on which the element lies
    for( int f = 0; f < ref.size( 1 ); ++f )
    {
      std::vector< IVec > fc;
      for( int v : ref.faces[ 1 ][ f ].verts )
        fc.push_back( c[ v ] );
      std::sort( fc.begin(), fc.end() );
      // orientation: sign of the determinant of the sorted facet's edges and a vector to the element
      std::vector< IVec > e;
      if( !cube )
        for( int k = 1; k < t.dim; ++k )
        {
          IVec row;
          for( int j = 0; j < t.dim; ++j )
            row.push_back( fc[ k ][ j ] - fc[ 0 ][ j ] );
          e.push_back( row );
        }
      else
        // sorted corners of a parallelepiped: choose independent edges greedily
        for( std::size_t k = 1; k < fc.size() && int( e.size() ) < t.dim-1; ++k )
        {
          IVec row;
          for( int j = 0; j < t.dim; ++j )
            row.push_back( fc[ k ][ j ] - fc[ 0 ][ j ] );
          bool neighbour = false;
          // an edge of the facet if it is not a sum of the others; axis parallel here or not, test by rank
          std::vector< IVec > test = e;
          test.push_back( row );
          // Gram determinant
          std::vector< IVec > g( test.size(), IVec( test.size() ) );
          for( std::size_t a = 0; a < test.size(); ++a )
            for( std::size_t b = 0; b < test.size(); ++b )
            {
              long long s = 0;
              for( int j = 0; j < t.dim; ++j )
                s += test[ a ][ j ]*test[ b ][ j ];
              g[ a ][ b ] = s;
            }
          neighbour = (det( g ) != 0);
          if( neighbour )
            e.push_back( row );
        }
      long long side = 0;
      if( int( e.size() ) == t.dim-1 )
      {
        IVec in( t.dim, 0 );
        for( const IVec &x : c )
          for( int j = 0; j < t.dim; ++j )
            in[ j ] += x[ j ];
        for( int j = 0; j < t.dim; ++j )
          in[ j ] -= fc[ 0 ][ j ] * (long long)c.size();
        e.push_back( in );
        side = det( e );
        side = (side > 0) - (side < 0);
      }
      auto &s = facets[ fc ];
      s.count += 1;
      s.orientation += side;
      if( s.count == 2 )
        ex.expectf( s.orientation == 0, "%s: two elements on the same side of a facet", what );
      ex.expectf( s.count <= 2, "%s: facet belongs to more than two elements", what );
    }
    ex.step( 1 );
  }
  ex.expectf( sum == cellMeasure( t.dim, t.cell, t.n ), "%s: measure %lld instead of %lld (in units of the lattice)", what, sum, cellMeasure( t.dim, t.cell, t.n ) );
  // a facet with one element lies on the boundary of the cell; triangulated cubes of dimension four and more
  // consist of conforming refinements of their Kuhn simplices, but do not conform across them
  if( t.dim > 3 && !model::sameShape( t.cell, t.sub ) )
    return;
  const model::Cell &cell = model::cell( t.dim, t.cell );
  for( const auto &f : facets )
  {
    if( f.second.count != 1 )
      continue;
    bool boundary = false;
    for( int i = 0; i < cell.size( 1 ) && !boundary; ++i )
    {
      // all corners of the facet in the hyperplane of the cell's facet i: the determinant with d points of it vanishes
      const auto &vs = cell.faces[ 1 ][ i ].verts;
      // find dim affinely independent vertices
      std::vector< IVec > basis;
      const IVec &o = cell.corners[ vs[ 0 ] ];
      for( std::size_t k = 1; k < vs.size() && int( basis.size() ) < t.dim-1; ++k )
      {
        IVec row;
        for( int j = 0; j < t.dim; ++j )
          row.push_back( cell.corners[ vs[ k ] ][ j ] - o[ j ] );
        std::vector< IVec > test = basis;
        test.push_back( row );
        std::vector< IVec > g( test.size(), IVec( test.size() ) );
        for( std::size_t a = 0; a < test.size(); ++a )
          for( std::size_t b = 0; b < test.size(); ++b )
            for( int j = 0; j < t.dim; ++j )
              g[ a ][ b ] += test[ a ][ j ]*test[ b ][ j ];
        if( det( g ) != 0 )
          basis = test;
      }
      bool all = true;
      for( const IVec &x : f.first )
      {
        std::vector< IVec > m = basis;
        IVec row;
        for( int j = 0; j < t.dim; ++j )
          row.push_back( x[ j ] - o[ j ]*t.n );
        m.push_back( row );
        all = all && det( m ) == 0;
      }
      boundary = all;
    }
    ex.expectf( boundary, "%s: a facet inside the cell belongs to one element only", what );
  }
  ex.step( long( facets.size() ) );
}

static void checkTiling ( mc::Explorer &ex, const Table &t )
{
  // by vertex indices
  std::vector< IVec > points;
  for( const Vertex &v : t.vertices )
  {
    IVec i;
    if( !ex.expectf( lattice( t, v.x, i ), "vertex %d is not a lattice point", v.index ) )
      return;
    points.push_back( i );
  }
  std::vector< std::vector< IVec > > byIndex, byGeometry;
  for( const Element &e : t.elements )
  {
    std::vector< IVec > c;
    for( int i : e.verts )
    {
      if( !ex.expectf( i >= 0 && i < int( points.size() ), "element %d has vertex index %d", e.index, i ) )
        return;
      c.push_back( points[ i ] );
    }
    byIndex.push_back( c );
    if( e.hasGeometry )
    {
      c.clear();
      for( const Vec &x : e.corners )
      {
        IVec i;
        if( !ex.expectf( lattice( t, x, i ), "corner of element %d is not a lattice point", e.index ) )
          return;
        c.push_back( i );
      }
      byGeometry.push_back( c );
    }
  }
  tiling( ex, t, byIndex, "vertex indices" );
  if( !byGeometry.empty() )
    tiling( ex, t, byGeometry, "geometries" );
  ex.outcome( mc::str( "%d elements", int( t.elements.size() ) ) );
}

static void checkIndices ( mc::Explorer &ex, const Table &t )
{
  const Real tol = 16*t.eps;
  ex.expectf( int( t.vertices.size() ) == t.nVertices, "iteration visits %d vertices, %d announced", int( t.vertices.size() ), t.nVertices );
  ex.expectf( int( t.elements.size() ) == t.nElements, "iteration visits %d elements, %d announced", int( t.elements.size() ), t.nElements );
  std::map< IVec, int > seen;
  for( std::size_t i = 0; i < t.vertices.size(); ++i )
  {
    const Vertex &v = t.vertices[ i ];
    ex.expectf( v.index == int( i ), "vertex %d in order of iteration has index %d", int( i ), v.index );
    IVec k;
    if( ex.expectf( lattice( t, v.x, k ), "vertex %d is not a lattice point", v.index ) )
    {
      ++seen[ k ];
      ex.expectf( inside( t.dim, t.cell, k, t.n ), "vertex %d outside the cell", v.index );
    }
    if( v.hasGeometry )
    {
      ex.expectf( v.gcorners == 1, "vertex geometry has %d corners", v.gcorners );
      for( int j = 0; j < t.dim; ++j )
        ex.near( v.gx[ j ], v.x[ j ], tol, "corner of the vertex geometry" );
    }
    ex.step( 1 );
  }
  // every lattice point of the cell is a vertex
  IVec k( t.dim, 0 );
  long points = 0;
  for( ;; )
  {
    if( inside( t.dim, t.cell, k, t.n ) )
    {
      ++points;
      ex.expect( seen.count( k ), "a lattice point of the cell is no vertex" );
    }
    int j = 0;
    while( j < t.dim && ++k[ j ] > t.n )
      k[ j++ ] = 0;
    if( j == t.dim )
      break;
  }
  // where cell and parts have the same shape, vertices are unique
  const bool same = (t.dim == 1) || model::sameShape( t.cell, t.sub );
  if( same )
    ex.expectf( points == long( t.vertices.size() ), "%d vertices for %ld lattice points", int( t.vertices.size() ), points );

  std::set< int > used;
  const bool cube = (t.dim > 1 && !model::sameShape( t.sub, 0 ));
  const int nc = (cube ? (1 << t.dim) : t.dim+1);
  for( std::size_t i = 0; i < t.elements.size(); ++i )
  {
    const Element &e = t.elements[ i ];
    ex.expectf( e.index == int( i ), "element %d in order of iteration has index %d", int( i ), e.index );
    ex.expectf( int( e.verts.size() ) == nc, "element %d has %d vertex indices", e.index, int( e.verts.size() ) );
    Vec mean( t.dim, 0 );
    bool valid = true;
    for( int v : e.verts )
    {
      if( !ex.expectf( v >= 0 && v < int( t.vertices.size() ), "element %d has vertex index %d", e.index, v ) )
      {
        valid = false;
        continue;
      }
      used.insert( v );
      for( int j = 0; j < t.dim; ++j )
        mean[ j ] += t.vertices[ v ].x[ j ] / nc;
    }
    if( !valid )
      continue;
    ex.expectf( std::set< int >( e.verts.begin(), e.verts.end() ).size() == e.verts.size(), "element %d repeats a vertex", e.index );
    for( int j = 0; j < t.dim; ++j )
      ex.near( e.x[ j ], mean[ j ], tol, "centre of an element" );
    if( e.hasGeometry )
    {
      ex.expectf( e.gdim == t.dim && model::sameShape( e.gid, t.sub ), "element geometry has type %u/%d", e.gid, e.gdim );
      ex.expectf( int( e.corners.size() ) == nc, "element geometry has %d corners", int( e.corners.size() ) );
      for( int j = 0; j < t.dim; ++j )
        ex.near( e.center[ j ], mean[ j ], tol, "centre of the geometry of an element" );
      // the corners of the geometry are the vertices of the element
      std::multiset< IVec > a, b;
      bool ordered = true;
      for( int c = 0; c < std::min( nc, int( e.corners.size() ) ); ++c )
      {
        IVec p, q;
        lattice( t, e.corners[ c ], p );
        lattice( t, t.vertices[ e.verts[ c ] ].x, q );
        a.insert( p );
        b.insert( q );
        ordered = ordered && p == q;
      }
      ex.expectf( a == b, "corners of the geometry of element %d are not its vertices", e.index );
      if( cube )
        ex.expectf( ordered, "corners of the geometry of element %d are ordered differently", e.index );
      Real vol = 1;
      for( int j = 0; j < t.dim; ++j )
        vol /= Real( t.n ) * (cube ? 1 : j+1);
      ex.near( e.volume, vol, 64*t.eps*t.n*vol, "volume of the geometry of an element" );
    }
    ex.step( 1 );
  }
  ex.expectf( used.size() == t.vertices.size(), "%d of %d vertices belong to an element", int( used.size() ), int( t.vertices.size() ) );
  ex.outcome( mc::str( "%d vertices %d elements", int( t.vertices.size() ), int( t.elements.size() ) ) );
}

// the announced numbers are polynomials in the number of intervals, with the degree of the dimension; few intervals are
// compared with what iteration visits, all others are announced without visiting anything
template< class Count >
static void checkGrowth ( mc::Explorer &ex, int dim, const char *what, Count &&count )
{
  long long most = 1;
  while( [ & ] { double p = double( factorial( dim ) ); for( int d = 0; d < dim; ++d ) p *= double( most+2 ); return p; }() < 2147483647.0 && most < 40000 )
    ++most;
  // differences of the first dim+1 values
  std::vector< __int128 > d;
  for( int n = 1; n <= dim+1; ++n )
    d.push_back( count( n ) );
  for( int k = 1; k <= dim; ++k )
    for( int n = dim; n >= k; --n )
      d[ n ] -= d[ n-1 ];
  for( long long n = 1; n <= most; ++n )
  {
    __int128 want = 0, choose = 1;
    for( int k = 0; k <= dim; ++k )
    {
      want += d[ k ] * choose;
      choose = choose * (n-1-k) / (k+1);
    }
    const long long got = count( int( n ) );
    ex.expectf( got == want, "%lld intervals have %lld %s instead of %lld", n, got, what, (long long)( want ) );
    ex.step( 1 );
  }
}

template< int dim >
static void growth ( mc::Explorer &ex )
{
  constexpr unsigned C = (1u << dim)-1;
  auto shape = [ & ] ( auto cell, auto sub ) {
      constexpr unsigned a = decltype( cell )::value, b = decltype( sub )::value;
      ex.run( mc::str( "growth %u -> %u dimension %d", a, b, dim ), [ & ] {
          typedef Dune::StaticRefinement< a, double, b, dim > R;
          checkGrowth( ex, dim, "vertices", [] ( int n ) { return R::nVertices( Dune::refinementIntervals( n ) ); } );
          checkGrowth( ex, dim, "elements", [] ( int n ) { return R::nElements( Dune::refinementIntervals( n ) ); } );
          auto &r = Dune::buildRefinement< dim, double >( Dune::GeometryType( a, dim ), Dune::GeometryType( b, dim ) );
          checkGrowth( ex, dim, "vertices", [ & ] ( int n ) { return r.nVertices( Dune::refinementIntervals( n ) ); } );
          checkGrowth( ex, dim, "elements", [ & ] ( int n ) { return r.nElements( Dune::refinementIntervals( n ) ); } );
        } );
    };
  constexpr std::integral_constant< unsigned, 0 > simplex;
  shape( simplex, simplex );
  if constexpr( dim >= 2 )
  {
    constexpr std::integral_constant< unsigned, C > cube;
    shape( cube, cube );
    shape( cube, simplex );
  }
  if constexpr( dim == 3 )
  {
    shape( std::integral_constant< unsigned, 5 >(), simplex );
    shape( std::integral_constant< unsigned, 3 >(), simplex );
  }
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  mode = ex.param( "mode", "tiling" );
  refine::forAll( ex.thorough(), [ & ] ( const std::string &key, int n, Dune::RefinementIntervals tag, auto &&read ) {
      ex.run( mode + " " + key, [ & ] {
          ex.expectf( tag.intervals() == n, "tag stands for %d intervals", int( tag.intervals() ) );
          const Table t = read();
          ex.expect( !t.elements.empty() && !t.vertices.empty(), "nothing visited" );
          ex.expect( int( t.elements.size() ) < limit && int( t.vertices.size() ) < limit, "iteration does not end" );
          if( mode == "tiling" )
            checkTiling( ex, t );
          else
            checkIndices( ex, t );
        } );
    } );
  if( mode != "tiling" )
  {
    growth< 1 >( ex );
    growth< 2 >( ex );
    growth< 3 >( ex );
    growth< 4 >( ex );
    growth< 5 >( ex );
  }
  return ex.finish();
}
