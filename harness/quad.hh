// Support for the quadrature checks.
#ifndef VERIF_QUAD_HH
#define VERIF_QUAD_HH

#include <dune/geometry/quadraturerules.hh>
#include "common.hh"

namespace quad
{
  using model::Real;
  using model::Vec;
  namespace QT = Dune::QuadratureType;

  struct Kind { QT::Enum qt; const char *name; };
  inline const std::vector< Kind > &kinds ()
  {
    static const std::vector< Kind > k = {
      { QT::GaussLegendre, "GaussLegendre" }, { QT::GaussJacobi_n_0, "GaussJacobi_n_0" }, { QT::GaussLobatto, "GaussLobatto" },
      { QT::GaussRadauLeft, "GaussRadauLeft" }, { QT::GaussRadauRight, "GaussRadauRight" } };
    return k;
  }
  inline const std::vector< Kind > &weightedKinds ()
  {
    static const std::vector< Kind > k = { { QT::GaussJacobi_1_0, "GaussJacobi_1_0" }, { QT::GaussJacobi_2_0, "GaussJacobi_2_0" } };
    return k;
  }

  // a! b! / (a+b+1)!  =  integral of z^a (1-z)^b
  inline Real beta ( int a, int b )
  {
    Real r = 1 / Real( a+b+1 );
    // r *= 1 / binomial( a+b, a )
    for( int i = 1; i <= std::min( a, b ); ++i )
      r *= Real( i ) / Real( a+b-std::min( a, b )+i );
    return r;
  }

  // exact integral of a monomial over the reference cell
  inline Real moment ( int dim, unsigned id, const int *a )
  {
    Real v = 1;
    int deg = 0;
    for( int k = 1; k <= dim; ++k )
    {
      const bool prism = (k == 1) || ((id >> (k-1)) & 1u);
      v *= (prism ? 1 / Real( a[ k-1 ]+1 ) : beta( a[ k-1 ], deg + k-1 ));
      deg += a[ k-1 ];
    }
    return v;
  }

  // Exactness for monomials; 'full': all of total degree <= order, otherwise
  // those of degree order, order-1, 1, 0 and all pure powers.
  template< class ct, int dim >
  inline void checkExact ( mc::Explorer &ex, const Dune::QuadratureRule< ct, dim > &rule, unsigned id, int order, bool full, Real tol, int alpha = 0 )
  {
    const std::size_t n = rule.size();
    std::vector< std::vector< std::vector< double > > > pw; // only used for double and float
    std::vector< std::vector< std::vector< Real > > > pwl;
    const bool wide = (sizeof( ct ) > sizeof( double ));
    auto fill = [ & ] ( auto &p, auto zero ) {
        typedef decltype( zero ) T;
        p.assign( dim, std::vector< std::vector< T > >( order+1, std::vector< T >( n ) ) );
        for( int k = 0; k < dim; ++k )
          for( std::size_t q = 0; q < n; ++q )
          {
            T v = 1;
            for( int e = 0; e <= order; ++e )
            {
              p[ k ][ e ][ q ] = v;
              v *= T( rule[ q ].position()[ k ] );
            }
          }
      };
    if( wide ) fill( pwl, Real( 0 ) ); else fill( pw, double( 0 ) );

    auto run = [ & ] ( auto &p, auto zero ) {
        typedef decltype( zero ) T;
        std::vector< std::vector< T > > partial( dim+1, std::vector< T >( n ) );
        for( std::size_t q = 0; q < n; ++q )
          partial[ 0 ][ q ] = T( rule[ q ].weight() );
        std::vector< int > a( dim );
        long checked = 0;
        std::function< void ( int, int ) > rec = [ & ] ( int k, int left ) {
            const T *in = partial[ k ].data();
            if( k == dim-1 )
            {
              int nonzero = 0, used = order - left;
              for( int j = 0; j < k; ++j )
                nonzero += (a[ j ] != 0);
              for( int e = 0; e <= left; ++e )
              {
                a[ k ] = e;
                const int tot = used + e;
                if( !full && tot < order-1 && tot > 1 && nonzero + (e != 0) > 1 )
                  continue;
                const T *pe = p[ k ][ e ].data();
                T s0 = 0, s1 = 0, s2 = 0, s3 = 0;
                std::size_t q = 0;
                for( ; q+4 <= n; q += 4 )
                {
                  s0 += in[ q ]*pe[ q ];
                  s1 += in[ q+1 ]*pe[ q+1 ];
                  s2 += in[ q+2 ]*pe[ q+2 ];
                  s3 += in[ q+3 ]*pe[ q+3 ];
                }
                for( ; q < n; ++q )
                  s0 += in[ q ]*pe[ q ];
                const Real got = Real( s0+s1 ) + Real( s2+s3 );
                const Real want = (alpha == 0 ? moment( dim, id, a.data() ) : std::pow( Real( 2 ), alpha ) * beta( a[ 0 ], alpha ));
                ++checked;
                const Real err = std::fabs( got - want );
                ex.maxOf( "worst_error_over_tolerance", double( err/tol ) );
                if( !(err <= tol) )
                {
                  std::string m;
                  for( int j = 0; j < dim; ++j )
                    m += mc::str( " %d", a[ j ] );
                  ex.fail( "integral of the monomial with exponents%s: got %.18Lg, exact %.18Lg, |difference| %.3Lg > %.3Lg", m.c_str(), got, want, err, tol );
                }
              }
              return;
            }
            for( int e = 0; e <= left; ++e )
            {
              a[ k ] = e;
              const T *pe = p[ k ][ e ].data();
              T *out = partial[ k+1 ].data();
              for( std::size_t q = 0; q < n; ++q )
                out[ q ] = in[ q ]*pe[ q ];
              rec( k+1, left-e );
            }
          };
        rec( 0, order );
        ex.step( checked );
        ex.count( "monomials", checked );
      };
    if( wide ) run( pwl, Real( 0 ) ); else run( pw, double( 0 ) );
    ex.outcome( mc::str( "%d points order %d", int( n ), order ) );
  }

  template< class ct, int dim >
  inline std::uint64_t digest ( const Dune::QuadratureRule< ct, dim > &rule )
  {
    std::uint64_t h = 1469598103934665603ull;
    auto add = [ & ] ( double d ) {
        std::uint64_t u;
        std::memcpy( &u, &d, 8 );
        for( int i = 0; i < 8; ++i ) { h ^= (u >> (8*i)) & 255; h *= 1099511628211ull; }
      };
    add( double( rule.size() ) );
    add( double( rule.order() ) );
    add( double( rule.type().id() ) );
    for( const auto &q : rule )
    {
      add( double( q.weight() ) );
      for( int k = 0; k < dim; ++k )
        add( double( q.position()[ k ] ) );
    }
    return h;
  }
}

#endif
