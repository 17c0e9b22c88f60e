// Curved maps: polynomials of several variables, composed maps, and the
// finite elements and mappings that represent them in the library.
#ifndef VERIF_CURVED_HH
#define VERIF_CURVED_HH

#include "corners.hh"

namespace curved
{
  using model::Real;
  using model::Vec;
  using model::Mat;
  using model::MapValue;

  // --- polynomials ----------------------------------------------------------

  typedef std::vector< int > Multi;

  // multi indices: total degree <= k ('P'), maximum degree <= k ('Q'),
  // 'W' (wedge: total degree in the first two, maximum with the third),
  inline std::vector< Multi > multiIndices ( char space, int dim, int k )
  {
    std::vector< Multi > r;
    Multi a( dim, 0 );
    while( true )
    {
      int tot = 0;
      for( int v : a )
        tot += v;
      const bool ok = (space == 'Q') || (space == 'P' && tot <= k) || (space == 'W' && a[ 0 ] + a[ 1 ] <= k);
      if( ok )
        r.push_back( a );
      int j = 0;
      while( j < dim && ++a[ j ] > k )
        a[ j++ ] = 0;
      if( j == dim )
        break;
    }
    return r;
  }

  template< class T >
  inline T monomial ( const Multi &a, const T *x )
  {
    T v = 1;
    for( std::size_t j = 0; j < a.size(); ++j )
      for( int p = 0; p < a[ j ]; ++p )
        v *= x[ j ];
    return v;
  }

  template< class T >
  inline T monomialDerivative ( const Multi &a, const T *x, int k )
  {
    if( a[ k ] == 0 )
      return 0;
    Multi b = a;
    --b[ k ];
    return T( a[ k ] ) * monomial( b, x );
  }

  // a polynomial map R^dim -> R^n
  struct PolyMap
  {
    int dim, n;
    std::vector< Multi > idx;
    std::vector< Vec > coeff; // per multi index, n entries

    MapValue operator() ( const Vec &x ) const
    {
      MapValue r;
      r.value.assign( n, 0 );
      r.jac = model::matrix( n, dim );
      for( std::size_t i = 0; i < idx.size(); ++i )
      {
        const Real v = monomial( idx[ i ], x.data() );
        for( int c = 0; c < n; ++c )
          r.value[ c ] += coeff[ i ][ c ] * v;
        for( int k = 0; k < dim; ++k )
        {
          const Real d = monomialDerivative( idx[ i ], x.data(), k );
          for( int c = 0; c < n; ++c )
            r.jac[ c ][ k ] += coeff[ i ][ c ] * d;
        }
      }
      return r;
    }
  };

  inline geocheck::Map compose ( geocheck::Map f, geocheck::Map g, int n, int mid, int dim )
  {
    return [ = ] ( const Vec &x ) {
        const MapValue a = g( x );
        MapValue b = f( a.value );
        b.jac = model::mul( b.jac, a.jac, n, mid, dim );
        return b;
      };
  }

  // --- integration ----------------------------------------------------------

  // Gauss-Legendre points on [0,1]
  inline const std::vector< std::pair< Real, Real > > &gauss ( int n )
  {
    static std::map< int, std::vector< std::pair< Real, Real > > > cache;
    auto &r = cache[ n ];
    if( r.empty() )
      for( int i = 0; i < n; ++i )
      {
        const Real pi = 3.14159265358979323846264338327950288L;
        Real x = std::cos( pi * (i + 0.75L) / (n + 0.5L) ), dp = 0;
        for( int it = 0; it < 100; ++it )
        {
          Real p0 = 1, p1 = x;
          for( int k = 2; k <= n; ++k )
          {
            const Real p2 = ((2*k-1) * x * p1 - (k-1) * p0) / k;
            p0 = p1;
            p1 = p2;
          }
          dp = n * (x * p1 - p0) / (x*x - 1);
          const Real dx = p1 / dp;
          x -= dx;
          if( std::fabs( dx ) < 1e-19L )
            break;
        }
        r.push_back( { (1 - x)/2, 1 / ((1 - x*x) * dp * dp) } );
      }
    return r;
  }

  // integral over the reference cell by collapsed tensor Gauss quadrature
  template< class F >
  inline Real integrate ( int dim, unsigned id, int n, F f )
  {
    Vec x( dim );
    std::function< Real ( int, Real ) > rec = [ & ] ( int k, Real scale ) -> Real {
        // coordinates dim-1,...,k are set; the section below is scaled by 'scale'
        if( k == 0 )
          return f( x );
        const bool prism = (k == 1) || ((id >> (k-1)) & 1u);
        Real sum = 0;
        for( const auto &q : gauss( n ) )
        {
          x[ k-1 ] = scale * q.first;
          const Real next = prism ? scale : scale * (1 - q.first);
          sum += scale * q.second * rec( k-1, next );
        }
        return sum;
      };
    return rec( dim, 1 );
  }

  // --- library side ---------------------------------------------------------

  // a polynomial mapping with derivative, as expected by MappedGeometry
  template< class ct, int dim, int n >
  struct PolyFunction
  {
    std::vector< Multi > idx;
    std::vector< std::array< ct, n > > coeff;

    PolyFunction () = default;
    explicit PolyFunction ( const PolyMap &p ) : idx( p.idx )
    {
      for( const Vec &c : p.coeff )
      {
        std::array< ct, n > a;
        for( int i = 0; i < n; ++i )
          a[ i ] = ct( c[ i ] );
        coeff.push_back( a );
      }
    }

    Dune::FieldVector< ct, n > operator() ( const Dune::FieldVector< ct, dim > &x ) const
    {
      Dune::FieldVector< ct, n > y( ct( 0 ) );
      for( std::size_t i = 0; i < idx.size(); ++i )
        for( int c = 0; c < n; ++c )
          y[ c ] += coeff[ i ][ c ] * monomial( idx[ i ], &x[ 0 ] );
      return y;
    }

    struct Derivative
    {
      std::vector< Multi > idx;
      std::vector< std::array< ct, n > > coeff;
      Dune::FieldMatrix< ct, n, dim > operator() ( const Dune::FieldVector< ct, dim > &x ) const
      {
        Dune::FieldMatrix< ct, n, dim > J( ct( 0 ) );
        for( std::size_t i = 0; i < idx.size(); ++i )
          for( int k = 0; k < dim; ++k )
            for( int c = 0; c < n; ++c )
              J[ c ][ k ] += coeff[ i ][ c ] * monomialDerivative( idx[ i ], &x[ 0 ], k );
        return J;
      }
    };

    friend Derivative derivative ( const PolyFunction &f ) { return Derivative{ f.idx, f.coeff }; }
  };

  // Lagrange (or, without nodes, monomial) local finite element
  template< class ct, int dim >
  struct Element
  {
    struct Data
    {
      std::vector< Multi > idx;
      std::vector< Vec > nodes;
      Mat lagrange; // lagrange[i][j]: coefficient of monomial j in shape function i
      int order;
    };
    std::shared_ptr< const Data > data;

    struct Basis
    {
      struct Traits
      {
        typedef ct DomainFieldType;
        static const int dimDomain = dim;
        typedef Dune::FieldVector< ct, dim > DomainType;
        typedef ct RangeFieldType;
        static const int dimRange = 1;
        typedef Dune::FieldVector< ct, 1 > RangeType;
        typedef Dune::FieldMatrix< ct, 1, dim > JacobianType;
      };
      const Element *e;
      std::shared_ptr< const Data > data;

      std::size_t size () const { return data->lagrange.size(); }
      unsigned int order () const { return data->order; }
      void evaluateFunction ( const typename Traits::DomainType &x, std::vector< typename Traits::RangeType > &out ) const
      {
        out.resize( size() );
        for( std::size_t i = 0; i < size(); ++i )
        {
          ct v = 0;
          for( std::size_t j = 0; j < data->idx.size(); ++j )
            v += ct( data->lagrange[ i ][ j ] ) * monomial( data->idx[ j ], &x[ 0 ] );
          out[ i ] = v;
        }
      }
      void evaluateJacobian ( const typename Traits::DomainType &x, std::vector< typename Traits::JacobianType > &out ) const
      {
        out.resize( size() );
        for( std::size_t i = 0; i < size(); ++i )
          for( int k = 0; k < dim; ++k )
          {
            ct v = 0;
            for( std::size_t j = 0; j < data->idx.size(); ++j )
              v += ct( data->lagrange[ i ][ j ] ) * monomialDerivative( data->idx[ j ], &x[ 0 ], k );
            out[ i ][ 0 ][ k ] = v;
          }
      }
    };

    struct Interpolation
    {
      std::shared_ptr< const Data > data;
      template< class F, class C >
      void interpolate ( const F &f, std::vector< C > &out ) const
      {
        out.clear();
        for( const Vec &u : data->nodes )
        {
          Dune::FieldVector< ct, dim > x;
          for( int k = 0; k < dim; ++k )
            x[ k ] = ct( u[ k ] );
          out.push_back( f( x ) );
        }
      }
    };

    struct Traits { typedef Basis LocalBasisType; typedef Interpolation LocalInterpolationType; };

    Basis basis;
    Interpolation interpolation;

    Element () = default;
    explicit Element ( std::shared_ptr< const Data > d ) : data( d ), basis{ nullptr, d }, interpolation{ d } {}

    const Basis &localBasis () const { return basis; }
    const Interpolation &localInterpolation () const { return interpolation; }
    std::size_t size () const { return data->lagrange.size(); }

    // Lagrange element with the given polynomial space on the lattice of the cell
    static Element lagrange ( char space, unsigned id, int k )
    {
      auto d = std::make_shared< Data >();
      d->idx = multiIndices( space, dim, k );
      d->order = k;
      for( const model::IVec &p : model::latticePoints( dim, id, k ) )
      {
        Vec u( dim );
        for( int j = 0; j < dim; ++j )
          u[ j ] = Real( p[ j ] ) / Real( k );
        d->nodes.push_back( u );
      }
      const int n = int( d->nodes.size() );
      if( n != int( d->idx.size() ) )
        throw std::runtime_error( "space and nodes do not match" );
      Mat V = model::matrix( n, n ); // V[i][j] = monomial i at node j
      for( int i = 0; i < n; ++i )
        for( int j = 0; j < n; ++j )
          V[ i ][ j ] = monomial( d->idx[ i ], d->nodes[ j ].data() );
      // sum_j L[i][j] m_j( node_k ) = delta_ik  =>  L V = I
      d->lagrange = model::inverse( V );
      return Element( d );
    }

    // plain monomials
    static Element monomials ( char space, int k )
    {
      auto d = std::make_shared< Data >();
      d->idx = multiIndices( space, dim, k );
      d->order = k;
      const int n = int( d->idx.size() );
      d->lagrange = model::matrix( n, n );
      for( int i = 0; i < n; ++i )
        d->lagrange[ i ][ i ] = 1;
      return Element( d );
    }

    PolyMap polynomial ( const std::vector< Vec > &coeff, int n ) const
    {
      PolyMap p{ dim, n, data->idx, {} };
      for( std::size_t j = 0; j < data->idx.size(); ++j )
      {
        Vec c( n, 0 );
        for( std::size_t i = 0; i < coeff.size(); ++i )
          for( int l = 0; l < n; ++l )
            c[ l ] += data->lagrange[ i ][ j ] * coeff[ i ][ l ];
        p.coeff.push_back( c );
      }
      return p;
    }
  };

  // identity-like base plus quadratic perturbations of a polynomial map:
  // every single and every pair of perturbed coefficients
  template< class F >
  inline void forAllMaps ( int dim, int n, bool pairs, F f )
  {
    const auto idx = multiIndices( 'P', dim, 2 );
    std::vector< std::pair< int, int > > slots;
    for( std::size_t i = 0; i < idx.size(); ++i )
    {
      int tot = 0;
      for( int v : idx[ i ] )
        tot += v;
      if( tot == 2 )
        for( int c = 0; c < n; ++c )
          slots.push_back( { int( i ), c } );
    }
    const auto B = family::bases( n, dim );
    for( int b = 0; b < 2; ++b )
    {
      PolyMap base{ dim, n, idx, std::vector< Vec >( idx.size(), Vec( n, 0 ) ) };
      for( std::size_t i = 0; i < idx.size(); ++i )
      {
        int tot = 0, at = -1;
        for( int k = 0; k < dim; ++k )
        {
          tot += idx[ i ][ k ];
          if( idx[ i ][ k ] == 1 )
            at = k;
        }
        for( int c = 0; c < n; ++c )
        {
          if( tot == 0 )
            base.coeff[ i ][ c ] = Real( c+1 ) / 8;
          if( tot == 1 )
            base.coeff[ i ][ c ] = B[ b ][ c ][ at ];
        }
      }
      f( base, mc::str( "base %d plain", b ), true );
      for( std::size_t p = 0; p < slots.size(); ++p )
        for( std::size_t q = p; q < (pairs ? slots.size() : p+1); ++q )
        {
          PolyMap m = base;
          m.coeff[ slots[ p ].first ][ slots[ p ].second ] += 0.13L;
          if( q != p )
            m.coeff[ slots[ q ].first ][ slots[ q ].second ] -= 0.093L;
          f( m, mc::str( "base %d quadratic %d %d", b, int( p ), int( q ) ), false );
        }
    }
  }
}

#endif
