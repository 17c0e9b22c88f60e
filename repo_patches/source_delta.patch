From 23f8660e8a730faaafe3b9ae91e0bb8798c4e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:39 +0000
Subject: [PATCH 01/18] fix: compare GeometryType none by dimension

The documentation of GeometryType::none states that two none types are
equal if and only if they have the same dimension. operator== ignored the
dimension, and operator< ordered equal none types by their unused topology
id, so equality, ordering and hashing disagreed.
---
 dune/geometry/type.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..9a4138f 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,10 +376,9 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
+               && ( dim_ == other.dim_ )
                && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
+                    || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
                     )
                );
     }
@@ -395,6 +394,7 @@ namespace Dune
                || ( !( other.none_ < none_ )
                     && ( ( dim_ < other.dim_ )
                          || ( (other.dim_ == dim_)
+                              && !none_
                               && ((topologyId_ >> 1) < (other.topologyId_ >> 1) )
                               )
                          )
-- 
2.43.0


From 2d5ae2b0da6c096cfbf37c01c1e1ba77de9876d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:39 +0000
Subject: [PATCH 02/18] fix: accept an initial guess that already solves the
 problem in gaussNewton

If the initial guess is the solution, the residual cannot be reduced any
further. This was reported as stagnation, so that local(global(center))
of a MappedGeometry or LocalFiniteElementGeometry threw an exception.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..b0b3969 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -95,7 +95,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
 
     // cannot reduce the residual
     if (!(resNorm < resNorm0))
-      return GaussNewtonErrorCode::STAGNATION;
+      return resNorm0 < opts.absTol ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::STAGNATION;
 
     x0 = x;
     resNorm0 = resNorm;
-- 
2.43.0


From b804ead868a0d34c3a1e569f09f5a92a147a26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:51 +0000
Subject: [PATCH 03/18] fix: return the vertex position from geometry() of
 refinement vertex iterators

The vertex iterators of the simplex, hypercube and pyramid refinements
returned a geometry whose corner differed from coords().
---
 dune/geometry/refinement/hcube.cc                | 2 +-
 dune/geometry/refinement/pyramidtriangulation.cc | 2 +-
 dune/geometry/refinement/simplex.cc              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..9978aaa 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,7 +391,7 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
+        std::array<unsigned int,dimension> intCoords = codimension == 0 ? cellCoord(_index) : vertexCoord(_index);
 
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..540dbf6 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,7 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From ed22c26ad95d800b349656d7e585dc8e88f26fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:51 +0000
Subject: [PATCH 04/18] fix: support self-assignment of virtual refinement
 iterators

The assignment operator deleted its own backend before cloning the other
one, which is a use after free if both iterators are the same object.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..1c22b16 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *newBackend = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = newBackend;
     return *this;
   }
 
-- 
2.43.0


From 993d55befa0ce3d29b5916674adb4109e2c52487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:11 +0000
Subject: [PATCH 05/18] fix: throw QuadratureOrderOutOfRange for orders beyond
 the rule cache

Requesting a quadrature rule with an order above maxOrder() indexed past
the end of the rule cache instead of throwing the documented exception.
---
 dune/geometry/quadraturerules.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..4803401 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -294,6 +294,10 @@ namespace Dune {
         orders = QuadratureOrderVector(numRules);
       });
 
+      // the cache has no entry for orders that are not available
+      if (dim > 0 && (p < 0 || std::size_t(p) >= quadratureOrders.size()))
+        DUNE_THROW(QuadratureOrderOutOfRange, "QuadratureRule for order " << p << " and GeometryType " << t << " not available");
+
       // we only have one quadrature rule for points
       auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
       // initialize quadrature rule once
-- 
2.43.0


From ba5c6bbaf2f67d4fed46f2572c1e39a3251c198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:11 +0000
Subject: [PATCH 06/18] fix: select the quadrature rule of the requested
 BasicType

The enumerator was passed on as a topology id, so that a request for cube
returned the simplex rule and a request for prism the pyramid rule.
---
 dune/geometry/quadraturerules.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 4803401..87f11ce 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -335,7 +335,18 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
+      GeometryType gt;
+      switch( t )
+      {
+      case GeometryType::simplex : gt = GeometryTypes::simplex(dim); break;
+      case GeometryType::cube :    gt = GeometryTypes::cube(dim); break;
+      case GeometryType::pyramid : gt = GeometryTypes::pyramid; break;
+      case GeometryType::prism :   gt = GeometryTypes::prism; break;
+      default :
+        DUNE_THROW(RangeError, "BasicType does not determine a GeometryType");
+      }
+      if (gt.dim() != dim)
+        DUNE_THROW(RangeError, "BasicType not available in dimension " << dim);
       return instance()._rule(gt,p,qt);
     }
   };
-- 
2.43.0


From ea22a424b2571fda88d34e64ed8b9a0e0fff3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:11 +0000
Subject: [PATCH 07/18] fix: integrate the volume of curved geometries up to
 the tolerance

The Gauss rules of orders 2 and 3 are identical on lines and cubes, so the
iteration compared a value with itself and stopped there. It could also
exceed the maximal available quadrature order.
---
 dune/geometry/localfiniteelementgeometry.hh | 4 +++-
 dune/geometry/mappedgeometry.hh             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..a573b14 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -280,7 +280,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // consecutive orders may share a quadrature rule, thus only compare odd orders
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..45e4da4 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -245,7 +245,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // consecutive orders may share a quadrature rule, thus only compare odd orders
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
-- 
2.43.0


From a2aa9e323f3d245322bf848dd2833588dcbab554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:11 +0000
Subject: [PATCH 08/18] fix: register the members of new Python
 MultiLinearGeometry classes

insertClass returns true for a newly created class. The members were only
registered if the class already existed.
---
 dune/python/geometry/multilineargeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 9633c6f..8180369 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -66,7 +66,7 @@ namespace Dune
           );
       auto cls = entry.first;
 
-      if (!entry.second)
+      if (entry.second)
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
-- 
2.43.0


From b6b715408bf4752fa563e5067fdcab475effe519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:11 +0000
Subject: [PATCH 09/18] fix: integrate over geometries in the Python quadrature
 interface

The fallback for arguments without a geometry attribute used an undefined
name.
---
 python/dune/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dune/geometry/__init__.py b/python/dune/geometry/__init__.py
index d594cc8..11bc7c9 100644
--- a/python/dune/geometry/__init__.py
+++ b/python/dune/geometry/__init__.py
@@ -10,7 +10,7 @@ def _duneIntegrate(self,entity,f):
     try:
         ie = entity.geometry.integrationElement
     except AttributeError:
-        ie = geometry.integrationElement
+        ie = entity.integrationElement
     return numpy.sum(f(entity,points)*ie(points)*weights,axis=-1)
 
 _duneQuadratureRules = {}
-- 
2.43.0


From 09176f020c64f6297905520790e42beb818405d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:20 +0000
Subject: [PATCH 10/18] fix: construct affine geometries from the corners of
 any reference element

The Jacobian was always built from the corners 1,...,dim. For pyramids and
for cubes in three or more dimensions these are not the images of the unit
vectors.
---
 dune/geometry/affinegeometry.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/affinegeometry.hh b/dune/geometry/affinegeometry.hh
index 2884ff8..5b7334c 100644
--- a/dune/geometry/affinegeometry.hh
+++ b/dune/geometry/affinegeometry.hh
@@ -116,8 +116,13 @@ namespace Dune
     AffineGeometry ( const ReferenceElement &refElement, const CoordVector &coordVector )
       : refElement_(refElement), origin_(coordVector[0])
     {
-      for( int i = 0; i < mydimension; ++i )
-        jacobianTransposed_[ i ] = coordVector[ i+1 ] - origin_;
+      for( int i = 0, j = 1; i < mydimension; ++i )
+      {
+        // find the corner located in the i-th unit vector
+        while( refElement_.position( j, mydimension )[ i ] < ctype( 0.5 ) )
+          ++j;
+        jacobianTransposed_[ i ] = coordVector[ j ] - origin_;
+      }
       integrationElement_ = MatrixHelper::rightInvA( jacobianTransposed_, jacobianInverseTransposed_ );
     }
 
-- 
2.43.0


From 22f0362c107a102c450000bcbeb8ba264dd6e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:32 +0000
Subject: [PATCH 11/18] fix: do not report success of gaussNewton without any
 iteration

With maxIt = 0 the residual of the initial guess was never compared with
the tolerance and the method returned OK for every initial guess.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index b0b3969..8ee9c42 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -106,7 +106,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   }
 
   // tolerance could not be reached
-  if (!(resNorm < opts.absTol))
+  if (!(resNorm0 < opts.absTol))
     return GaussNewtonErrorCode::TOLERANCE_NOT_REACHED;
 
   return GaussNewtonErrorCode::OK;
-- 
2.43.0


From 28433e1456d49aff611096e18cfc8d0713168ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:23 +0000
Subject: [PATCH 12/18] fix: do not stop the volume integration on a
 coincidence

The rules of order one and three for prisms share their points along the
axis, so that their results may agree although the integral is not yet
resolved. Wait for two small changes in a row.
---
 dune/geometry/localfiniteelementgeometry.hh | 8 ++++++--
 dune/geometry/mappedgeometry.hh             | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index a573b14..39afb0e 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -280,13 +280,17 @@ public:
       return vol0;
 
     using std::abs;
-    // consecutive orders may share a quadrature rule, thus only compare odd orders
+    // consecutive orders may share a quadrature rule, thus only compare odd orders.
+    // Different rules may agree by chance, thus wait for two small changes in a row.
     const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    bool converged = false;
     for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
-      if (abs(vol1 - vol0) < opts.absTol)
+      const bool small = abs(vol1 - vol0) < opts.absTol;
+      if (small && converged)
         return vol1;
 
+      converged = small;
       vol0 = vol1;
     }
     return vol0;
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 45e4da4..6893f21 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -245,13 +245,17 @@ public:
       return vol0;
 
     using std::abs;
-    // consecutive orders may share a quadrature rule, thus only compare odd orders
+    // consecutive orders may share a quadrature rule, thus only compare odd orders.
+    // Different rules may agree by chance, thus wait for two small changes in a row.
     const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    bool converged = false;
     for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
-      if (abs(vol1 - vol0) < opts.absTol)
+      const bool small = abs(vol1 - vol0) < opts.absTol;
+      if (small && converged)
         return vol1;
 
+      converged = small;
       vol0 = vol1;
     }
     return vol0;
-- 
2.43.0


From 6d3cf0a1ee1b029907b781d07e018ce41eef11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:24 +0000
Subject: [PATCH 13/18] fix: export the quadrature points of a vertex to numpy

The address of the first coordinate was taken although a point of dimension
zero has no coordinates.
---
 dune/python/geometry/quadraturerules.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/quadraturerules.hh b/dune/python/geometry/quadraturerules.hh
index b3266cc..6a872f7 100644
--- a/dune/python/geometry/quadraturerules.hh
+++ b/dune/python/geometry/quadraturerules.hh
@@ -32,7 +32,7 @@ namespace Dune
             static_cast< ssize_t >( sizeof(rule[ 0 ].position()[ 0 ]) ),
             static_cast< ssize_t >( sizeof(rule[ 0 ]) )
           },
-          &rule[ 0 ].position()[ 0 ]
+          rule[ 0 ].position().data()
         );
       pybind11::array_t< double > w(
           { static_cast< ssize_t >( rule.size() ) },
-- 
2.43.0


From 4be9ed6a40a89d8858880df3576b47c692ae0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:24 +0000
Subject: [PATCH 14/18] fix: keep a quadrature rule alive while it is iterated
 over in Python

The iterator refers to the points of the rule.  Iterating over a rule that is
not stored elsewhere read freed memory.
---
 dune/python/geometry/quadraturerules.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/quadraturerules.hh b/dune/python/geometry/quadraturerules.hh
index 6a872f7..2de5a95 100644
--- a/dune/python/geometry/quadraturerules.hh
+++ b/dune/python/geometry/quadraturerules.hh
@@ -85,7 +85,8 @@ namespace Dune
             return quadratureToNumpy<Rule>(self);
             } );
 
-        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); } );
+        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); },
+                 pybind11::keep_alive< 0, 1 >() );
       }
 
     } // namespace detail
-- 
2.43.0


From e0b115cde1bf28ed7467e4bde908e47d2dc1ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:22 +0000
Subject: [PATCH 15/18] fix: return the inverse Jacobian of Python geometries
 as a matrix

The method returned a class that is not known to Python, so that every call
failed with a TypeError.
---
 dune/python/geometry/multilineargeometry.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 8180369..0796cd3 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -8,6 +8,7 @@
 
 #include <type_traits>
 
+#include <dune/common/fmatrix.hh>
 #include <dune/common/visibility.hh>
 
 #include <dune/geometry/type.hh>
@@ -32,7 +33,10 @@ namespace Dune
       void operator()(pybind11::class_<MGeometry>& cls)
       {
         cls.def("toLocal"                  , &MGeometry::local);
-        cls.def("jacobianInverseTransposed", &MGeometry::jacobianInverseTransposed);
+        cls.def("jacobianInverseTransposed",
+            [](const MGeometry& geom, const typename MGeometry::LocalCoordinate& local) {
+              return FieldMatrix<typename MGeometry::ctype, MGeometry::coorddimension, MGeometry::mydimension>( geom.jacobianInverseTransposed(local) );
+            });
       }
     };
 
-- 
2.43.0


From ec2245b1c20c613a04f0491d1d61fc4cb971adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:28 +0000
Subject: [PATCH 16/18] fix: recognize affine multilinear geometries relative
 to their size

Whether a geometry is affine was decided with an absolute tolerance.
Every cell with edges shorter than about 1e-8 was reported to be affine.
For such cells local() stopped after one Newton step and the cached
geometry used the affine map, so both returned wrong coordinates.
---
 dune/geometry/multilineargeometry.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 1ca32dc..d6947a5 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -918,11 +918,14 @@ namespace Dune
       if( !affine( topologyId, std::integral_constant< int, dim-1 >(), cit, jtTop ) )
         return false;
 
-      // check whether both jacobians are identical
-      ctype norm( 0 );
+      // check whether both jacobians are identical (up to a tolerance relative to their size)
+      ctype norm( 0 ), size( 0 );
       for( int i = 0; i < dim-1; ++i )
+      {
         norm += (jtTop[ i ] - jt[ i ]).two_norm2();
-      if( norm >= Traits::tolerance() )
+        size += jt[ i ].two_norm2();
+      }
+      if( norm > Traits::tolerance() * size )
         return false;
     }
     else
-- 
2.43.0


From 6873ac1c50fa4aa5801a7dd4e9cbe8f53ab83ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:53 +0000
Subject: [PATCH 17/18] fix: recognize affine finite element geometries
 relative to their size

Cells smaller than the square root of the machine precision were always
taken for affine, and large affine ones for curved.
---
 dune/geometry/localfiniteelementgeometry.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index 39afb0e..7a483b4 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 #define DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include <limits>
@@ -414,7 +415,12 @@ private:
           [&](int i) { return this->global(refSimplex.position(i,mydimension)); });
         AffineGeometry<ctype,mydimension,coorddimension> affineGeo(refSimplex,simplexCorners);
         using std::sqrt;
-        const ctype tol = sqrt(std::numeric_limits<ctype>::epsilon());
+        using std::max;
+        // the deviation from the affine mapping is measured relative to the size of the element
+        ctype size(0);
+        for (int i = 1; i < corners(); ++i)
+          size = max(size, (corner(i) - corner(0)).two_norm());
+        const ctype tol = sqrt(std::numeric_limits<ctype>::epsilon()) * size;
         for (int i = 0; i < corners(); ++i) {
           const auto corner = refElement_.position(i,mydimension);
           if ((affineGeo.global(corner) - global(corner)).two_norm() > tol)
-- 
2.43.0


From 840b0729d14538f4ca9d0a4f5cb3a27805a80e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 18/18] fix: accept a start point that solves the problem where
 the Jacobian is singular

The Gauss-Newton iteration reported JACOBIAN_NOT_INVERTIBLE although the
residual was already below the tolerance. local() of the image of the cell's
centre failed for curved geometries with a singular Jacobian there.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 8ee9c42..eb1dca2 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -78,7 +78,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
 
     // break if jacobian is not invertible
     if (!invertible)
-      return GaussNewtonErrorCode::JACOBIAN_NOT_INVERTIBLE;
+      return resNorm0 < opts.absTol ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::JACOBIAN_NOT_INVERTIBLE;
 
     // line-search procedure to update x with correction dx
     R alpha = 1;
-- 
2.43.0

