// Support for the refinement checks: a refinement is read into plain tables.
#ifndef VERIF_REFINE_HH
#define VERIF_REFINE_HH

#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/referenceelements.hh>
#include "common.hh"

namespace refine
{
  using model::Real;
  using model::Vec;
  using model::IVec;

  struct Vertex { int index; Vec x; bool hasGeometry; Vec gx; int gcorners; };
  struct Element
  {
    int index;
    Vec x;
    std::vector< int > verts;
    bool hasGeometry;
    std::vector< Vec > corners;
    unsigned gid;
    int gdim;
    Real volume;
    Vec center;
  };

  struct Table
  {
    int dim;
    unsigned cell, sub;
    int n;                // intervals
    Real eps;
    int nVertices, nElements;
    std::vector< Vertex > vertices;
    std::vector< Element > elements;
  };

  template< class V >
  Vec vec ( const V &v )
  {
    Vec r;
    for( std::size_t i = 0; i < v.size(); ++i )
      r.push_back( Real( v[ i ] ) );
    return r;
  }

  // number of steps after which iterating is considered not to end
  static const int limit = 2000000;

  template< unsigned cell, class ct, unsigned sub, int dim >
  Table readStatic ( int n, Dune::RefinementIntervals tag )
  {
    typedef Dune::StaticRefinement< cell, ct, sub, dim > R;
    Table t{ dim, cell, sub, n, std::numeric_limits< ct >::epsilon(), int( R::nVertices( tag ) ), int( R::nElements( tag ) ), {}, {} };
    const auto vEnd = R::vEnd( tag );
    for( auto it = R::vBegin( tag ); it != vEnd && int( t.vertices.size() ) < limit; ++it )
    {
      const auto g = it.geometry();
      t.vertices.push_back( Vertex{ it.index(), vec( it.coords() ), true, vec( g.corner( 0 ) ), int( g.corners() ) } );
    }
    const auto eEnd = R::eEnd( tag );
    for( auto it = R::eBegin( tag ); it != eEnd && int( t.elements.size() ) < limit; ++it )
    {
      Element e{ it.index(), vec( it.coords() ), {}, true, {}, 0, 0, 0, {} };
      const auto vi = it.vertexIndices();
      for( std::size_t i = 0; i < vi.size(); ++i )
        e.verts.push_back( int( vi[ i ] ) );
      const auto g = it.geometry();
      for( int i = 0; i < g.corners(); ++i )
        e.corners.push_back( vec( g.corner( i ) ) );
      e.gid = g.type().id();
      e.gdim = g.type().dim();
      e.volume = Real( g.volume() );
      e.center = vec( g.center() );
      t.elements.push_back( std::move( e ) );
    }
    return t;
  }

  template< class ct, int dim >
  Table readVirtual ( unsigned cell, unsigned sub, int n, Dune::RefinementIntervals tag )
  {
    auto &r = Dune::buildRefinement< dim, ct >( Dune::GeometryType( cell, dim ), Dune::GeometryType( sub, dim ) );
    Table t{ dim, cell, sub, n, std::numeric_limits< ct >::epsilon(), r.nVertices( tag ), r.nElements( tag ), {}, {} };
    const auto vEnd = r.vEnd( tag );
    for( auto it = r.vBegin( tag ); it != vEnd && int( t.vertices.size() ) < limit; ++it )
      t.vertices.push_back( Vertex{ it.index(), vec( it.coords() ), false, {}, 0 } );
    const auto eEnd = r.eEnd( tag );
    for( auto it = r.eBegin( tag ); it != eEnd && int( t.elements.size() ) < limit; ++it )
    {
      Element e{ it.index(), vec( it.coords() ), {}, false, {}, 0, 0, 0, {} };
      for( int i : it.vertexIndices() )
        e.verts.push_back( i );
      t.elements.push_back( std::move( e ) );
    }
    return t;
  }

  // all refinements with a given callback; the callback gets a key and a function producing the table
  template< class F >
  void forAllIntervals ( int top, F &&f, int large = 0 )
  {
    for( int n = 1; n <= top; ++n )
      f( n, Dune::refinementIntervals( n ), mc::str( "%d intervals", n ) );
    for( int l = 0; (1 << l) <= top; ++l )
      f( 1 << l, Dune::refinementLevels( l ), mc::str( "%d levels", l ) );
    // one number of intervals with more vertices than 16 bits can count
    if( large )
      f( large, Dune::refinementIntervals( large ), mc::str( "%d intervals", large ) );
  }

  template< class ct, int dim, class F >
  void forAllDim ( const char *name, int top, F &&f, int large = 0 )
  {
    constexpr unsigned S = 0, C = (1u << dim)-1;
    forAllIntervals( top, [ & ] ( int n, Dune::RefinementIntervals tag, const std::string &k ) {
        auto key = [ & ] ( const char *what, unsigned a, unsigned b ) { return mc::str( "%s %s %u -> %u dimension %d, %s", what, name, a, b, dim, k.c_str() ); };
        f( key( "static", S, S ), n, tag, [ & ] { return readStatic< S, ct, S, dim >( n, tag ); } );
        f( key( "virtual", S, S ), n, tag, [ & ] { return readVirtual< ct, dim >( S, S, n, tag ); } );
        f( key( "virtual", S | 1, S ), n, tag, [ & ] { return readVirtual< ct, dim >( S | 1, S, n, tag ); } );
        f( key( "virtual", S, S | 1 ), n, tag, [ & ] { return readVirtual< ct, dim >( S, S | 1, n, tag ); } );
        if constexpr( dim >= 2 )
        {
          f( key( "static", S | 1, S | 1 ), n, tag, [ & ] { return readStatic< S | 1, ct, S | 1, dim >( n, tag ); } );
          f( key( "static", C, C ), n, tag, [ & ] { return readStatic< C, ct, C, dim >( n, tag ); } );
          f( key( "static", C & ~1u, C ), n, tag, [ & ] { return readStatic< (C & ~1u), ct, C, dim >( n, tag ); } );
          f( key( "static", C, S ), n, tag, [ & ] { return readStatic< C, ct, S, dim >( n, tag ); } );
          f( key( "virtual", C, C ), n, tag, [ & ] { return readVirtual< ct, dim >( C, C, n, tag ); } );
          f( key( "virtual", C & ~1u, C ), n, tag, [ & ] { return readVirtual< ct, dim >( C & ~1u, C, n, tag ); } );
          f( key( "virtual", C, S ), n, tag, [ & ] { return readVirtual< ct, dim >( C, S, n, tag ); } );
          f( key( "virtual", C & ~1u, S | 1 ), n, tag, [ & ] { return readVirtual< ct, dim >( C & ~1u, S | 1, n, tag ); } );
        }
        if constexpr( dim == 3 )
        {
          f( key( "static", 5, 0 ), n, tag, [ & ] { return readStatic< 5, ct, 0, dim >( n, tag ); } );
          f( key( "virtual", 5, 0 ), n, tag, [ & ] { return readVirtual< ct, dim >( 5, 0, n, tag ); } );
          f( key( "virtual", 4, 1 ), n, tag, [ & ] { return readVirtual< ct, dim >( 4, 1, n, tag ); } );
          f( key( "static", 3, 0 ), n, tag, [ & ] { return readStatic< 3, ct, 0, dim >( n, tag ); } );
          f( key( "virtual", 3, 0 ), n, tag, [ & ] { return readVirtual< ct, dim >( 3, 0, n, tag ); } );
          f( key( "virtual", 2, 1 ), n, tag, [ & ] { return readVirtual< ct, dim >( 2, 1, n, tag ); } );
        }
      }, large );
  }

  template< class F >
  void forAll ( bool thorough, F &&f )
  {
    forAllDim< double, 1 >( "double", thorough ? 600 : 300, f, 70000 );
    forAllDim< double, 2 >( "double", thorough ? 100 : 60, f, 370 );
    forAllDim< double, 3 >( "double", thorough ? 28 : 20, f, thorough ? 50 : 41 );
    forAllDim< double, 4 >( "double", thorough ? 9 : 7, f );
    forAllDim< double, 5 >( "double", thorough ? 4 : 3, f );
    forAllDim< float, 2 >( "float", thorough ? 60 : 40, f );
    forAllDim< float, 3 >( "float", thorough ? 16 : 12, f );
  }

  // integer coordinates on the lattice of width 1/n
  inline bool lattice ( const Table &t, const Vec &x, IVec &i )
  {
    i.clear();
    for( Real c : x )
    {
      const long long k = std::llround( double( c*t.n ) );
      if( std::fabs( c*t.n - k ) > 16*t.eps*t.n )
        return false;
      i.push_back( k );
    }
    return true;
  }

  // inside the scaled reference cell (exact)
  inline bool inside ( int dim, unsigned w, const IVec &i, long long n )
  {
    long long s = n;
    for( int k = dim; k >= 1; --k )
    {
      if( i[ k-1 ] < 0 || i[ k-1 ] > s )
        return false;
      if( !(k == 1 || ((w >> (k-1)) & 1u)) )
        s -= i[ k-1 ];
    }
    return true;
  }

  inline long long det ( std::vector< IVec > m )
  {
    // fraction-free elimination
    const int n = int( m.size() );
    long long sign = 1, prev = 1;
    for( int k = 0; k < n-1; ++k )
    {
      int p = k;
      while( p < n && m[ p ][ k ] == 0 )
        ++p;
      if( p == n )
        return 0;
      if( p != k )
      {
        std::swap( m[ p ], m[ k ] );
        sign = -sign;
      }
      for( int i = k+1; i < n; ++i )
        for( int j = k+1; j < n; ++j )
          m[ i ][ j ] = (m[ i ][ j ]*m[ k ][ k ] - m[ i ][ k ]*m[ k ][ j ]) / prev;
      prev = m[ k ][ k ];
    }
    return sign * (n ? m[ n-1 ][ n-1 ] : 1);
  }

  inline long long factorial ( int d ) { return d <= 1 ? 1 : d*factorial( d-1 ); }

  // d! n^d times the volume of the reference cell
  inline long long cellMeasure ( int dim, unsigned w, int n )
  {
    long long den = 1, pw = 1;
    for( int k = 1; k <= dim; ++k )
    {
      if( !(k == 1 || ((w >> (k-1)) & 1u)) )
        den *= k;
      pw *= n;
    }
    return pw * factorial( dim ) / den;
  }
}

#endif
