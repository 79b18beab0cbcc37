From 2a1ae77e73a1523816876b7e0c27e672b749e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 01/24] fix: Make assignment of local views a deep copy

The nodes of the tree may refer to the element stored in the local view.
The implicit assignment copied the tree, such that the assigned view
referred to the element of the other one. Do the same as in the copy
constructor instead.
---
 .../functionspacebases/defaultlocalview.hh    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..f679702 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -10,6 +10,7 @@
 
 #include <tuple>
 #include <optional>
+#include <type_traits>
 
 #include <dune/common/concept.hh>
 #include <dune/common/hybridutilities.hh>
@@ -87,6 +88,26 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy of the local view
+   *
+   * The nodes of the tree may refer to the element stored in their local view.
+   * Hence the tree can not be copied from the other local view.
+   */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+    requires(std::is_move_assignable_v<Tree>)
+  {
+    if (&other != this)
+    {
+      unbind();
+      globalBasis_ = other.globalBasis_;
+      tree_ = globalBasis_->preBasis().makeNode();
+      initializeTree(tree_);
+      if (other.bound())
+        bind(other.element());
+    }
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From 46c814ceec010132641ba4ccdea731428650f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 02/24] fix: Do not attach local basis to another finite
 element on assignment

The local basis of a transformed finite element stores a pointer to this
finite element, which must not be overwritten in an assignment.
---
 .../functionspacebases/transformedfiniteelementmixin.hh    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..b43b5b2 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,13 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    // The local basis refers to the finite element it belongs to
+    // and hence must not be copied from the other finite element.
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const& other)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From 97bf8038c48cb85485c53bfb8c27baa3d7148ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 03/24] fix: Set grid view on update of TaylorHoodPreBasis

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..4a0d1f1 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From 1d1ce60996e349a1e870d24672e2e535694e902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 04/24] fix: Update mapper on update of MorleyPreBasis

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From 968105412432d7254f428719f0654e7219de53e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 05/24] fix: Make copies of PolymorphicSmallObject safe

If copying the wrapped object threw an exception during assignment, the
already destroyed object was destroyed again. Furthermore empty objects
could not be copied.
---
 dune/functions/common/polymorphicsmallobject.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..ee02073 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -107,8 +107,9 @@ public:
   {
     if (&other!=this)
     {
-      destroyWrappedObject();
-      copyToWrappedObject(other);
+      // Copying may throw. Hence create the copy before destroying anything.
+      auto copy = other;
+      *this = std::move(copy);
     }
     return *this;
   }
@@ -179,7 +180,9 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
-    if (other.bufferUsed())
+    if (not other)
+      p_ = nullptr;
+    else if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
       p_ = other.p_->clone();
-- 
2.43.0


From a6a0ca41c3dc88a74b6b383bb7765561ce191e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:20 +0000
Subject: [PATCH 06/24] fix: allocate only the interior DOFs that
 Brezzi-Douglas-Marini elements use

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..e173922 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -172,8 +172,9 @@ class BrezziDouglasMariniPreBasis :
   static MCMGLayout dofLayout()
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
+      // Interior degrees of freedom only exist for k=2, and this is only implemented for dim=2
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isSimplex() ? (k-1)*(k+1) : (k-1)*k;
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From b00725b78f97b11eb3d05c979104787e5dd1c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:39 +0000
Subject: [PATCH 07/24] fix: let bSpline() store the knot vector instead of
 referring to it

---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..9be69fc 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -1290,7 +1290,7 @@ inline auto bSpline(const std::vector<double>& knotVector,
                     unsigned int order,
                     bool makeOpen = true)
 {
-  return [&knotVector, order, makeOpen](const auto& gridView) {
+  return [knotVector, order, makeOpen](const auto& gridView) {
     return BSplinePreBasis<std::decay_t<decltype(gridView)>>(gridView, knotVector, order, makeOpen);
   };
 }
-- 
2.43.0


From 3eee0465e00c9cfb430a5f4462499ee31e52d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:39 +0000
Subject: [PATCH 08/24] fix: container descriptor of periodic bases has the
 size of the basis

---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..5ba425c 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -125,7 +125,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return Dune::Functions::ContainerDescriptors::FlatVector{numIndices_};
   }
 
 private:
-- 
2.43.0


From 0bef18988907f293bddf87b366fca61fe61069c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 09/24] fix: return the coarse element when GeometryInAncestor
 is bound to a temporary

---
 dune/functions/common/geometryinancestor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..5c78334 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From ecd0846fe9caea3b1ae43a6799b09b63e1c1cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 10/24] fix: let a copied GeometryInAncestor refer to its own
 coarse element

---
 dune/functions/common/geometryinancestor.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 5c78334..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
-- 
2.43.0


From a6b98e5cfb19a62d93a63fd33ca60adf9b3aff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 11/24] fix: derivative of an unbound local function on a fine
 grid view

---
 dune/functions/gridfunctions/coarsefunctiononfinegridview.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 8a64ebb..e200434 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -96,7 +96,7 @@ private:
       : element_(element)
       , localFunction_(localFunction)
       , coarseEntitySet_(coarseEntitySet)
-      , geometryInAncestor_(geometryInAncestor, *element_)
+      , geometryInAncestor_(element_ ? GeometryInAncestor(geometryInAncestor, *element_) : GeometryInAncestor(geometryInAncestor))
     {}
 
     //! Bind to an element from the GridView
-- 
2.43.0


From 7f3a36459ec9d60d7fa8385da5629109b3427875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 12/24] fix: self move assignment of PolymorphicSmallObject

Swapping a wrapper with itself using std::swap move assigns it to itself.
This destroyed the stored object and then moved from it.
---
 dune/functions/common/polymorphicsmallobject.hh | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index ee02073..c996bef 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -117,8 +117,12 @@ public:
   //! Move assignment from other PolymorphicSmallObject
   PolymorphicSmallObject& operator=(PolymorphicSmallObject&& other) noexcept
   {
-    destroyWrappedObject();
-    moveToWrappedObject(std::move(other));
+    // Self-assignment occurs e.g. if an object is swapped with itself.
+    if (&other!=this)
+    {
+      destroyWrappedObject();
+      moveToWrappedObject(std::move(other));
+    }
     return *this;
   }
 
@@ -165,11 +169,6 @@ private:
       p_ = other.p_->move(&buffer_);
     else
     {
-      // We don't need to check for &other_!=this, because you can't
-      // have an rvalue to *this and call it's assignment/constructor
-      // at the same time. (Despite trying to shoot yourself in the foot
-      // with std::move explicitly.)
-
       // Take ownership of allocated object
       p_ = other.p_;
 
-- 
2.43.0


From 99c59186de25f580fe8b4b869afc424c9e53a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 13/24] fix: container descriptors of flat power bases over
 arrays and tuples

The flat merging of Array descriptors called emplace_back() on a std::array,
and the merging of Tuple descriptors used a run-time number of children as
template argument. Hence containerDescriptor() did not compile for flat power
bases whose children have several descriptors on the first level.
---
 .../containerdescriptors.hh                   | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..06329c9 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -347,10 +345,16 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A descriptor with a dynamic number of children of different type is not available
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
+  }
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +408,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -416,10 +418,16 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A descriptor with a dynamic number of children of different type is not available
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/N::value>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
+  }
 }
 
 } // end namespace Impl
-- 
2.43.0


From 33e233f586233a4cf2d87ef47414b1c561ee495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 14/24] fix: partial() of global-valued finite elements in
 three dimensions

The multi-index of the partial derivative was fixed to two dimensions.
---
 .../functionspacebases/globalvaluedlocalfiniteelement.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
index b9c62c3..683338d 100644
--- a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
+++ b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
@@ -298,7 +298,7 @@ namespace Dune::Functions::Impl
      * \param in Position where to evaluate the derivatives
      * \param[out] out The desired partial derivatives
      */
-    void partial(const std::array<unsigned int,2>& order,
+    void partial(const std::array<unsigned int,Traits::dimDomain>& order,
                  const typename Traits::DomainType& x,
                  std::vector<typename Traits::RangeType>& out) const
     {
-- 
2.43.0


From 7a4ab2f6ae42df3e88617cdae78f378411454565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 15/24] fix: OverflowArray::push_front

It overwrote every entry by the first one and wrote its argument over the
first entry instead of moving the entries up by one place.
---
 dune/functions/common/overflowarray.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..98154d9 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,8 +125,9 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
+    ++size_;
+    for (size_type i=size()-1; i>0; i--)
+      (*this)[i] = (*this)[i-1];
     (*this)[0] = t;
   }
 
-- 
2.43.0


From 6dc87c77745c81e7ddb006f0b08fdbd247af41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 16/24] fix: push_back and list construction of ReservedDeque

push_back() ignored where the first entry is stored, and the constructor from
a list left this place uninitialised.
---
 dune/functions/common/reserveddeque.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..8913d60 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -78,7 +78,8 @@ namespace Functions {
       first_(0)
     {}
 
-    ReservedDeque(std::initializer_list<T> const &l)
+    ReservedDeque(std::initializer_list<T> const &l) :
+      first_(0)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
       size_ = l.size();
@@ -107,7 +108,7 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_++) % n] = t;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From 1c77058677f14af4726444cabf98d71f5805dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 17/24] fix: LocalView.unbind() of the Python bindings leaks
 the element

handle release() gives up the reference without dropping it, so that every
element passed to bind() stayed alive forever, once unbind() was called.
---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 21ce47c..6a898bd 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -115,7 +115,7 @@ namespace Dune
       void unbind ( )
       {
         base().unbind();
-        obj_.release();
+        obj_ = pybind11::object();
       }
       pybind11::object obj_;
     };
-- 
2.43.0


From c9bf16087e6993f33d5d1f951d74d0b6e911ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 18/24] fix: The Python tree does not keep its local view alive

LocalView.tree() hands out a reference to a member of the local view. Using
the tree after the last reference to the local view was dropped accessed
released memory.
---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 6a898bd..f9ea261 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -186,7 +186,7 @@ namespace Dune
       lv.def( "maxSize", [] ( LocalView &self ) -> int { return self.maxSize(); } );
 
       Functions::registerTree<Tree>(lv);
-      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); });
+      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); }, pybind11::keep_alive< 0, 1 >() );
 
       cls.def( "localView", [] ( const GlobalBasis &self ) -> LocalView { return self.localView(); }, pybind11::keep_alive< 0, 1 >() );
       cls.def_property_readonly( "dimension", [] ( const GlobalBasis &self ) -> int { return self.dimension(); } );
-- 
2.43.0


From 1e4ff698b2b4fb46bfea4871bff3af44d3e31f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 19/24] fix: Children of a Python tree are copies

Tree.child(i) returned a copy of the node, which is not affected by binding
the local view to another element and refers to the finite element of the
original node without keeping it alive.
---
 dune/python/functions/tree.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/tree.hh b/dune/python/functions/tree.hh
index ea73f5f..59d6cfd 100644
--- a/dune/python/functions/tree.hh
+++ b/dune/python/functions/tree.hh
@@ -10,6 +10,7 @@
 #include <utility>
 #include <memory>
 
+#include <dune/common/shared_ptr.hh>
 // for void_t, in <type_traits> for C++17
 #include <dune/common/typetraits.hh>
 #include <dune/common/visibility.hh>
@@ -61,7 +62,7 @@ template<typename Tree, std::size_t i>
 auto childAccessor()
 {
   return [](Tree& tree) {
-    return pybind11::cast(tree.template child(index_constant<i>{}));
+    return pybind11::cast(Dune::stackobject_to_shared_ptr(tree.template child(index_constant<i>{})));
   };
 }
 
@@ -80,7 +81,7 @@ void registerTreeChildAccessor(pybind11::class_<Tree, std::shared_ptr<Tree>>& cl
   cls.def(
     "child",
     [accessors](Tree& tree, std::size_t i) { return accessors.at(i)(tree); },
-    pybind11::arg("i"));
+    pybind11::arg("i"), pybind11::keep_alive<0, 1>());
 }
 
 template<typename Tree>
-- 
2.43.0


From 8017b380f9fd0bb699c7beb39767eca248979590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 20/24] fix: Lifetime of grid views in the Python interface of
 bases

Neither did the grid view returned by GlobalBasis.gridView keep the grid
alive, nor did a basis keep the grid view alive it was updated to.
---
 dune/python/functions/globalbasis.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index f9ea261..94f82e7 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -162,12 +162,12 @@ namespace Dune
       if constexpr (hasUpdate)
       {
         cls.def_property( "gridView",
-                          [](const GlobalBasis& basis) { return basis.gridView(); },
-                          [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); });
+                          pybind11::cpp_function( [](const GlobalBasis& basis) { return basis.gridView(); }, pybind11::keep_alive< 0, 1 >() ),
+                          pybind11::cpp_function( [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); }, pybind11::keep_alive< 1, 2 >() ) );
       }
       else
       {
-        cls.def_property_readonly( "gridView", [](const GlobalBasis& basis) { return basis.gridView(); });
+        cls.def_property_readonly( "gridView", pybind11::cpp_function( [](const GlobalBasis& basis) { return basis.gridView(); }, pybind11::keep_alive< 0, 1 >() ) );
       }
 
       using LocalView = LocalViewWrapper< GlobalBasis >;
-- 
2.43.0


From ff9f06470f6feb37305c42b32f5b1afa6a1054a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 21/24] fix: A Python GridViewFunction does not keep its
 discrete function alive

The copy stored in the GridViewFunction refers to the basis and the
coefficient vector, which are kept alive by the Python discrete function only.
---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 94f82e7..e42fc11 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -240,7 +240,7 @@ namespace Dune
             MetaType<Range(Domain)>(),
             MetaType<GridView>()
             ), includes);
-        clsGridViewFunction.first.def(pybind11::init<DiscreteFunction>());
+        clsGridViewFunction.first.def(pybind11::init<DiscreteFunction>(), pybind11::keep_alive< 1, 2 >());
         pybind11::implicitly_convertible<DiscreteFunction, GridViewFunction>();
 
         registerDiscreteFunction<GlobalBasis>( module, clsDiscreteFunction.first );
-- 
2.43.0


From ead50bfc31f8c372b0c305d281e4b9d84266790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 22/24] fix: Python interpolate() silently ignores arrays of
 other types

An array whose element type is none of the supported ones was converted to a
temporary array, which received the coefficients and was thrown away.
---
 dune/python/functions/globalbasis.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index e42fc11..c45c5b8 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -197,15 +197,15 @@ namespace Dune
       // composite bases.  Support for them is planned for the future.
       if constexpr (dimRange==1)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int> );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double>, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool>, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int>, "x"_a.noconvert(), "f"_a );
       }
       else if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> > );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> >, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> >, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> >, "x"_a.noconvert(), "f"_a );
       }
 
       // Register various grid function types
-- 
2.43.0


From e7a5d7bf18aa034384fd002624d304b07f325f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 23/24] fix: A refused LocalView.bind() of the Python bindings
 keeps its argument

The argument was stored before it was known to be an element. A local view
passed to its own bind() was never released, and the element it had been bound
to was given up although the local view still was bound to it.
---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index c45c5b8..653a26d 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -108,9 +108,9 @@ namespace Dune
 
       void bind ( pybind11::object &obj )
       {
-        obj_ = obj;
         const EntityType &entity = obj.template cast<const EntityType&>();
         base().bind(entity);
+        obj_ = obj;
       }
       void unbind ( )
       {
-- 
2.43.0


From 148db2b850fd6fc145eb7e7e9e364ca9b78f478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 24/24] fix: Updating a basis accepts grids that its
 construction refuses

Several pre-bases check in their constructor that they support the element
types of the grid view, but update() takes any grid view and leaves a basis
with wrong or missing degrees of freedom.
---
 .../brezzidouglasmarinibasis.hh               | 16 ++++++++---
 .../hierarchicallagrangebasis.hh              | 28 +++++++++++++++++++
 ...rarchicallagrangewithelementbubblebasis.hh | 28 +++++++++++++++++++
 .../functionspacebases/nedelecbasis.hh        | 24 ++++++++++------
 .../functionspacebases/rannacherturekbasis.hh | 14 ++++++++--
 .../functionspacebases/raviartthomasbasis.hh  | 22 ++++++++++-----
 .../refinedlagrangebasis.hh                   | 25 +++++++++++++----
 7 files changed, 130 insertions(+), 27 deletions(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e173922..5f19747 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -196,15 +196,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // There is no inherent reason why the basis shouldn't work for grids with more than one
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 1)
-      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+    checkGridView(gv);
   }
 
   /* \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -218,6 +216,16 @@ public:
   }
 
 protected:
+
+  // Throw if the basis is not implemented for the element types of the grid view
+  static void checkGridView(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than one
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 1)
+      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
index 28bc78b..fcf269d 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
@@ -51,6 +51,20 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return gt.isVertex() ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      // Throw if the basis is not implemented for the element types of the grid view
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -68,6 +82,20 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return (gt.isVertex() || gt.isLine()) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      // Throw if the basis is not implemented for the element types of the grid view
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
index b6b225c..bdba146 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
@@ -49,6 +49,20 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.isVertex() || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      // Throw if the basis is not implemented for the element types of the grid view
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -66,6 +80,20 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.dim() <= 1 || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      // Throw if the basis is not implemented for the element types of the grid view
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/nedelecbasis.hh b/dune/functions/functionspacebases/nedelecbasis.hh
index d58687d..a708883 100644
--- a/dune/functions/functionspacebases/nedelecbasis.hh
+++ b/dune/functions/functionspacebases/nedelecbasis.hh
@@ -169,14 +169,7 @@ public:
     if (kind!=1)
       DUNE_THROW(NotImplemented, "Only Nedelec elements of the first kind are implemented!");
 
-    // There is no inherent reason why the basis shouldn't work for grids with more than two
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 2)
-      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+    checkGridView(gv);
 
     if (order>1)
       DUNE_THROW(NotImplemented, "Only first-order elements are implemented");
@@ -188,6 +181,7 @@ public:
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     LeafPreBasisMapperMixin<GV>::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -201,6 +195,20 @@ public:
   }
 
 protected:
+
+  // Throw if the basis is not implemented for the element types of the grid view
+  static void checkGridView(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than two
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 2)
+      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/rannacherturekbasis.hh b/dune/functions/functionspacebases/rannacherturekbasis.hh
index de41d63..9dccf50 100644
--- a/dune/functions/functionspacebases/rannacherturekbasis.hh
+++ b/dune/functions/functionspacebases/rannacherturekbasis.hh
@@ -73,9 +73,7 @@ public:
   RannacherTurekPreBasis(const GridView& gv) :
     gridView_(gv)
   {
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+    checkGridView(gv);
   }
 
   //! Initialize the global indices
@@ -91,6 +89,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     gridView_ = gv;
   }
 
@@ -129,6 +128,15 @@ public:
   }
 
 protected:
+
+  // Throw if the basis is not implemented for the element types of the grid view
+  static void checkGridView(const GridView& gv)
+  {
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+  }
+
   GridView gridView_;
 };
 
diff --git a/dune/functions/functionspacebases/raviartthomasbasis.hh b/dune/functions/functionspacebases/raviartthomasbasis.hh
index 033ca48..03fe7a7 100644
--- a/dune/functions/functionspacebases/raviartthomasbasis.hh
+++ b/dune/functions/functionspacebases/raviartthomasbasis.hh
@@ -293,18 +293,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
-    if (gv.indexSet().types(0).size() > 1 and k>0)
-      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
-        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+    checkGridView(gv);
   }
 
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update(const GridView& gv)
   {
+    checkGridView(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -318,6 +313,19 @@ public:
   }
 
 protected:
+
+  // Throw if the basis is not implemented for the element types of the grid view
+  static void checkGridView(const GridView& gv)
+  {
+    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
+    if (gv.indexSet().types(0).size() > 1 and k>0)
+      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
+        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/refinedlagrangebasis.hh b/dune/functions/functionspacebases/refinedlagrangebasis.hh
index c793b5f..aeffcf5 100644
--- a/dune/functions/functionspacebases/refinedlagrangebasis.hh
+++ b/dune/functions/functionspacebases/refinedlagrangebasis.hh
@@ -86,11 +86,14 @@ public:
   RefinedLagrangePreBasis (const GridView& gv)
     : Base(gv, dofLayout())
   {
-    for (auto gt : gv.indexSet().types(0)) {
-      if (!gt.isSimplex())
-        DUNE_THROW(Dune::NotImplemented,
-          "Refined Lagrange basis only implemented for simplex grids.");
-    }
+    checkGridView(gv);
+  }
+
+  //! Update the stored grid view, to be called if the grid has changed
+  void update (const GridView& gv)
+  {
+    checkGridView(gv);
+    Base::update(gv);
   }
 
   //! Create tree node
@@ -110,6 +113,18 @@ public:
   {
     return k;
   }
+
+private:
+
+  // Throw if the basis is not implemented for the element types of the grid view
+  static void checkGridView (const GridView& gv)
+  {
+    for (auto gt : gv.indexSet().types(0)) {
+      if (!gt.isSimplex())
+        DUNE_THROW(Dune::NotImplemented,
+          "Refined Lagrange basis only implemented for simplex grids.");
+    }
+  }
 };
 
 
-- 
2.43.0

