#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH

#include <utility>
#include <type_traits>
#include "mc.hh"
#include "model.hh"

// compile-time loop over 0,...,n-1
template< int n, class F >
inline void staticFor ( F &&f )
{
  [ & ]< int... i > ( std::integer_sequence< int, i... > ) {
    ( f( std::integral_constant< int, i >() ), ... );
  }( std::make_integer_sequence< int, n >() );
}

// run f and report which kind of exception it threw (empty: none)
template< class E, class F >
inline std::string thrown ( F &&f )
{
  try { f(); }
  catch( const E & ) { return "expected"; }
  catch( const std::exception &e ) { return std::string( "other exception: " ) + e.what(); }
  return "";
}

#endif
