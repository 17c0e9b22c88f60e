// Python classes of the multilinear geometries, registered by the library's own function.
// Compiled once as the module and once for every dimension.
#include <dune/python/common/fvecmatregistry.hh>
#include <dune/python/geometry/type.hh>
#include <dune/python/pybind11/pybind11.h>

template< int dim >
void add ( pybind11::module module );

#ifdef DIM
#include <dune/python/geometry/multilineargeometry.hh>

template< int dim, int cdim >
static void addClass ( pybind11::module module )
{
  Dune::Python::registerFieldVecMat< Dune::FieldVector< double, dim > >::apply();
  Dune::Python::registerFieldVecMat< Dune::FieldVector< double, cdim > >::apply();
  Dune::Python::registerFieldVecMat< Dune::FieldMatrix< double, dim, cdim > >::apply();
  Dune::Python::registerFieldVecMat< Dune::FieldMatrix< double, cdim, dim > >::apply();
  Dune::Python::registerMultiLinearGeometryType< double, dim, cdim >( module );
}

template<>
void add< DIM > ( pybind11::module module )
{
  if constexpr( DIM <= 1 )
    addClass< DIM, 1 >( module );
  if constexpr( DIM <= 2 )
    addClass< DIM, 2 >( module );
  addClass< DIM, 3 >( module );
}
#else
PYBIND11_MODULE( multilinear, module )
{
  add< 1 >( module );
  add< 2 >( module );
  add< 3 >( module );
}
#endif
