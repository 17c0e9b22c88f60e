// A small finite element for the geometries that are built from one.
#ifndef VERIF_ELEMENT_HH
#define VERIF_ELEMENT_HH

#include <cstddef>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/type.hh>

using Dune::GeometryType;
using Dune::FieldVector;
using Dune::FieldMatrix;

// quadratic elements on the line (dim 1) and biquadratic ones on the square (dim 2), order 1 or 2
template< int dim >
struct Element
{
  struct Basis
  {
    struct Traits
    {
      typedef double DomainFieldType;
      static const int dimDomain = dim;
      typedef FieldVector< double, dim > DomainType;
      typedef double RangeFieldType;
      static const int dimRange = 1;
      typedef FieldVector< double, 1 > RangeType;
      typedef FieldMatrix< double, 1, dim > JacobianType;
    };
    int k;
    static double shape ( int k, int i, double x )
    {
      if( k == 1 )
        return i == 0 ? 1-x : x;
      return i == 0 ? (1-x)*(1-2*x) : i == 1 ? 4*x*(1-x) : x*(2*x-1);
    }
    static double derivative ( int k, int i, double x )
    {
      if( k == 1 )
        return i == 0 ? -1 : 1;
      return i == 0 ? 4*x-3 : i == 1 ? 4-8*x : 4*x-1;
    }
    std::size_t size () const { return dim == 1 ? k+1 : (k+1)*(k+1); }
    unsigned order () const { return k; }
    void evaluateFunction ( const typename Traits::DomainType &x, std::vector< typename Traits::RangeType > &out ) const
    {
      out.resize( size() );
      for( std::size_t i = 0; i < size(); ++i )
      {
        double v = 1;
        int n = int( i );
        for( int d = 0; d < dim; ++d, n /= k+1 )
          v *= shape( k, n % (k+1), x[ d ] );
        out[ i ] = v;
      }
    }
    void evaluateJacobian ( const typename Traits::DomainType &x, std::vector< typename Traits::JacobianType > &out ) const
    {
      out.resize( size() );
      for( std::size_t i = 0; i < size(); ++i )
        for( int e = 0; e < dim; ++e )
        {
          double v = 1;
          int n = int( i );
          for( int d = 0; d < dim; ++d, n /= k+1 )
            v *= (d == e ? derivative( k, n % (k+1), x[ d ] ) : shape( k, n % (k+1), x[ d ] ));
          out[ i ][ 0 ][ e ] = v;
        }
    }
  };
  struct Interpolation
  {
    int k;
    template< class F, class C >
    void interpolate ( const F &f, std::vector< C > &out ) const
    {
      out.clear();
      const int n = (dim == 1 ? k+1 : (k+1)*(k+1));
      for( int i = 0; i < n; ++i )
      {
        FieldVector< double, dim > x;
        int m = i;
        for( int d = 0; d < dim; ++d, m /= k+1 )
          x[ d ] = double( m % (k+1) ) / k;
        out.push_back( f( x ) );
      }
    }
  };
  struct Traits { typedef Basis LocalBasisType; typedef Interpolation LocalInterpolationType; };
  int k;
  Basis basis{ k };
  Interpolation interpolation{ k };
  explicit Element ( int order = 1 ) : k( order ) {}
  const Basis &localBasis () const { return basis; }
  const Interpolation &localInterpolation () const { return interpolation; }
  std::size_t size () const { return basis.size(); }
  GeometryType type () const { return Dune::GeometryTypes::cube( dim ); }
};

#endif
