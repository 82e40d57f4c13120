From bcb29b09689d9f6919e667ec496de8846946bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:35 +0000
Subject: [PATCH 01/31] fix: symmetric difference of an interval_set with an
 empty interval

flip(set, segment) looked up an empty interval in the ordered segments,
which violates the precondition of the segment order (and trips an
assertion for non empty sets). Flipping with an empty interval is a no-op,
as it is for add and subtract.
---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..bea81f5 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -231,6 +231,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is common shall be subtracted
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
+    if(icl::is_empty(segment))
+        return object;
+
     interval_type span = segment;
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
-- 
2.43.0


From 8fba2d44c14b473ee55b8825b3f2123ce8951342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:44 +0000
Subject: [PATCH 02/31] fix: contains and == of intervals when one operand is
 empty

contains(interval, element), contains(interval, interval) and
operator== evaluated last() of an empty discrete interval. For unsigned
domains this trips an assertion (pred(0)); for domains whose default
interval is placed at the numeric minimum (e.g. pointers) contains
reported elements in an empty interval.
---
 include/boost/icl/concept/interval.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..9b4d542 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -852,14 +852,16 @@ template<class Type>
 inline typename boost::enable_if<is_interval<Type>, bool>::type
 contains(const Type& super, const Type& sub)
 {
-    return icl::is_empty(sub) || non_empty::contains(super, sub);
+    return icl::is_empty(sub)
+        || (!icl::is_empty(super) && non_empty::contains(super, sub));
 }
 
 template<class Type>
 typename boost::enable_if<is_discrete_static<Type>, bool>::type
 contains(const Type& super, const typename interval_traits<Type>::domain_type& element)
 {
-    return domain_less_equal<Type>(icl::first(super), element                  )
+    return !icl::is_empty(super)
+        && domain_less_equal<Type>(icl::first(super), element                  )
         && domain_less_equal<Type>(                   element, icl::last(super));
 }
 
@@ -906,8 +908,9 @@ template<class Type>
 typename boost::enable_if<is_interval<Type>, bool>::type
 operator == (const Type& left, const Type& right)
 {
-    return (icl::is_empty(left) && icl::is_empty(right))
-        || (lower_equal(left,right) && upper_equal(left,right));
+    return icl::is_empty(left) || icl::is_empty(right)
+         ? icl::is_empty(left) && icl::is_empty(right)
+         : lower_equal(left,right) && upper_equal(left,right);
 }
 
 template<class Type>
-- 
2.43.0


From 2b55788941d4d1a7210d35ac020d01ad53c770f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:05 +0000
Subject: [PATCH 03/31] fix: open_interval(value) steps in the order of the
 interval's Compare

---
 include/boost/icl/open_interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/open_interval.hpp b/include/boost/icl/open_interval.hpp
index b94f231..68f53e2 100644
--- a/include/boost/icl/open_interval.hpp
+++ b/include/boost/icl/open_interval.hpp
@@ -45,7 +45,8 @@ public:
 
     /** Constructor for an open singleton interval <tt>(val-1,val+1)</tt> */
     explicit open_interval(const DomainT& val)
-        : _lwb(pred(val)), _upb(succ(val))
+        : _lwb(icl::predecessor<DomainT,domain_compare>::apply(val))
+        , _upb(icl::successor<DomainT,domain_compare>::apply(val))
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From 0d17f7969ec9ec5cdd37e1b56b18c96187c8ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:05 +0000
Subject: [PATCH 04/31] fix: default constructed closed_interval is empty for a
 decreasing Compare

---
 include/boost/icl/closed_interval.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/closed_interval.hpp b/include/boost/icl/closed_interval.hpp
index d7a3e6f..47a07eb 100644
--- a/include/boost/icl/closed_interval.hpp
+++ b/include/boost/icl/closed_interval.hpp
@@ -33,9 +33,13 @@ public:
     //==========================================================================
     //= Construct, copy, destruct
     //==========================================================================
-    /** Default constructor; yields an empty interval <tt>[0,0)</tt>. */
+    /** Default constructor; yields an empty interval <tt>[1,0]</tt>
+        (<tt>[0,1]</tt> if \c Compare orders the domain decreasingly). */
     closed_interval()
-        : _lwb(unit_element<DomainT>::value()), _upb(identity_element<DomainT>::value())
+        : _lwb(is_increasing<DomainT,domain_compare>::value
+                   ? unit_element<DomainT>::value() : identity_element<DomainT>::value())
+        , _upb(is_increasing<DomainT,domain_compare>::value
+                   ? identity_element<DomainT>::value() : unit_element<DomainT>::value())
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From 0944bd927a45585a7d677678f767a2be9efe0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 05/31] fix: size, length, distance and element iteration for a
 decreasing Compare

---
 include/boost/icl/concept/interval.hpp        | 58 +++++++++++++------
 include/boost/icl/detail/element_iterator.hpp | 27 +++++++--
 2 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 9b4d542..952775f 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -994,6 +994,12 @@ touches(const Type& left, const Type& right)
 //==============================================================================
 //= Size
 //==============================================================================
+/** Does the order of the interval follow the arithmetic order of its domain? */
+template<class Type>
+struct is_increasing_interval
+    : is_increasing< typename interval_traits<Type>::domain_type
+                   , typename interval_traits<Type>::domain_compare > {};
+
 //- cardinality ----------------------------------------------------------------
 
 template<class Type>
@@ -1017,8 +1023,10 @@ typename boost::enable_if<is_discrete_interval<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+    return icl::is_empty(object)    ? identity_element<SizeT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? static_cast<SizeT>(last_next(object) - first(object))
+                                    : static_cast<SizeT>(first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1039,8 +1047,10 @@ typename boost::enable_if<is_discrete_asymmetric<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+    return icl::is_empty(object)    ? identity_element<SizeT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? static_cast<SizeT>(last_next(object) - first(object))
+                                    : static_cast<SizeT>(first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1049,8 +1059,10 @@ typename boost::enable_if<has_symmetric_bounds<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+    return icl::is_empty(object)    ? identity_element<SizeT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? static_cast<SizeT>(last_next(object) - first(object))
+                                    : static_cast<SizeT>(first(object) - last_next(object));
 }
 
 
@@ -1071,8 +1083,10 @@ inline typename boost::enable_if<is_continuous_interval<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+    return icl::is_empty(object)    ? identity_element<DiffT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? upper(object) - lower(object)
+                                    : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1081,8 +1095,10 @@ inline typename boost::enable_if<is_discrete_interval<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+    return icl::is_empty(object)    ? identity_element<DiffT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? last_next(object) - first(object)
+                                    : first(object) - last_next(object);
 }
 
 template<class Type>
@@ -1091,8 +1107,10 @@ typename boost::enable_if<is_continuous_asymmetric<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+    return icl::is_empty(object)    ? identity_element<DiffT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? upper(object) - lower(object)
+                                    : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1101,8 +1119,10 @@ inline typename boost::enable_if<is_discrete_static<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+    return icl::is_empty(object)    ? identity_element<DiffT>::value()
+        : is_increasing_interval<Type>::value
+                                    ? last_next(object) - first(object)
+                                    : first(object) - last_next(object);
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1421,9 +1441,11 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return static_cast<difference_type>(icl::pred(
+            is_increasing_interval<Type>::value ? first(x2) - last(x1) : last(x1) - first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return static_cast<difference_type>(icl::pred(
+            is_increasing_interval<Type>::value ? first(x1) - last(x2) : last(x2) - first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1442,9 +1464,9 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return is_increasing_interval<Type>::value ? lower(x2) - upper(x1) : upper(x1) - lower(x2);
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return is_increasing_interval<Type>::value ? lower(x1) - upper(x2) : upper(x2) - lower(x1);
     else
         return icl::identity_element<DiffT>::value();
 }
diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index b3a2db9..e194d31 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -186,6 +186,27 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
 
 #else // ICL_USE_INTERVAL_TEMPLATE_TYPE
 
+/** The element at position \c sneaker of an interval, counted from the end at
+    which a traversal with SegmentIteratorT enters it. */
+template<class SegmentIteratorT, class IntervalT>
+struct element_at
+{
+    typedef typename interval_traits<IntervalT>::domain_type    domain_type;
+    typedef typename interval_traits<IntervalT>::domain_compare domain_compare;
+    typedef typename difference_type_of<interval_traits<IntervalT> >::type
+                                                                domain_difference_type;
+
+    BOOST_STATIC_CONSTANT(bool, increasing = (is_increasing<domain_type,domain_compare>::value));
+
+    static domain_type apply(const IntervalT& inter_val, const domain_difference_type& sneaker)
+    {
+        if(is_reverse<SegmentIteratorT>::value)
+            return increasing ? icl::last(inter_val)  - sneaker : icl::last(inter_val)  + sneaker;
+        else
+            return increasing ? icl::first(inter_val) + sneaker : icl::first(inter_val) - sneaker;
+    }
+};
+
 template<class SegmentIteratorT, ICL_INTERVAL(ICL_COMPARE) Interval>
 struct segment_adapter 
 {
@@ -206,8 +227,7 @@ struct segment_adapter
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper)  - sneaker
-                                                        : icl::first(*leaper) + sneaker;
+        inter_pos = element_at<SegmentIteratorT,interval_type>::apply(*leaper, sneaker);
         return inter_pos; 
     }
 };
@@ -231,8 +251,7 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first)  - sneaker
-                                                        : icl::first(leaper->first) + sneaker;
+        inter_pos = element_at<SegmentIteratorT,interval_type>::apply(leaper->first, sneaker);
         return transit_type(inter_pos, leaper->second); 
     }
 };
-- 
2.43.0


From 79cdb8c8fec4673747ce13c1fdc0e8fa14c41ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:25 +0000
Subject: [PATCH 06/31] fix: add with a position hint gives what add gives for
 every combiner

---
 include/boost/icl/interval_base_map.hpp | 11 +++--------
 include/boost/icl/map.hpp               |  7 +++++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..95f5aff 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -567,16 +567,11 @@ protected:
         // Never try to insert an identity element into an identity element absorber here:
         BOOST_ASSERT((!(on_absorbtion<type,Combiner,Traits::absorbs_identities>::is_absorbable(co_val))));
 
+        const typename ImplMapT::size_type old_size = this->_map.size();
         iterator inserted_ 
-            = this->_map.insert(prior_, value_type(inter_val, Combiner::identity_element()));
+            = this->_map.insert(prior_, value_type(inter_val, version<Combiner>()(co_val)));
 
-        if((*inserted_).first == inter_val && (*inserted_).second == Combiner::identity_element())
-        {
-            Combiner()((*inserted_).second, co_val);
-            return std::pair<iterator,bool>(inserted_, true);
-        }
-        else
-            return std::pair<iterator,bool>(inserted_, false);
+        return std::pair<iterator,bool>(inserted_, this->_map.size() != old_size);
     }
 
     std::pair<iterator, bool>
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 3877745..cbb2f21 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -616,10 +616,13 @@ typename map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>::iterator
     if(on_absorbtion_::is_absorbable(co_val))
         return end();
 
+    const size_type old_size = base_type::size();
     iterator inserted_
         = base_type::insert(prior_,
-                            value_type(addend.first, Combiner::identity_element()));
-    Combiner()((*inserted_).second, addend.second);
+                            value_type(addend.first, version<Combiner>()(co_val)));
+
+    if(base_type::size() == old_size)
+        Combiner()((*inserted_).second, co_val);
 
     if(on_absorbtion_::is_absorbable((*inserted_).second))
     {
-- 
2.43.0


From 3f6eedf13b1aab4957185136c9e1dc21248451cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:10 +0000
Subject: [PATCH 07/31] fix: is_element_less and is_element_greater did not
 compile

---
 include/boost/icl/detail/element_comparer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 56ae8c5..198fce8 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -124,7 +124,7 @@ public:
             return stop;
         }
 
-        if(!key_value<LeftT>(_prior_left).touches(key_value<LeftT>(left)))
+        if(!icl::touches(key_value<LeftT>(_prior_left), key_value<LeftT>(left)))
         {   // left: same B = sameB...
             // right:sameA  = sameA...
             _result = greater;
@@ -146,7 +146,7 @@ public:
             return stop;
         }
 
-        if(!key_value<RightT>(_prior_right).touches(key_value<RightT>(right)))
+        if(!icl::touches(key_value<RightT>(_prior_right), key_value<RightT>(right)))
         {
             // left: sameA... = sameA...
             // right:same B.. = sameB...
-- 
2.43.0


From 8fff1017822bd7de14d420e8901524ef29686b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:10 +0000
Subject: [PATCH 08/31] fix: add_if terminates on elements the predicate
 rejects; assign_if passes its arguments in order

---
 include/boost/icl/concept/element_associator.hpp | 3 ++-
 include/boost/icl/concept/interval_map.hpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 4d37e25..8405e7f 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -485,6 +485,7 @@ add_if(const Predicate& pred, Type& object, const Type& src)
     while(it_ != src.end())
         if(pred(*it_))
             icl::add(object, *it_++);
+        else ++it_;
 
     return object;
 }
@@ -494,7 +495,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 assign_if(const Predicate& pred, Type& object, const Type& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 58298d8..47b03f1 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -621,6 +621,7 @@ add_if(const Predicate& pred, MapT& object, const MapT& src)
     while(it_ != src.end())
         if(pred(*it_)) 
             icl::add(object, *it_++); 
+        else ++it_;
     
     return object;
 }
@@ -630,7 +631,7 @@ inline typename enable_if<is_interval_map<MapT>, MapT>::type&
 assign_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From d6cbdfba6d8d498d83cee3e00c9fd423318114b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 09/31] fix: erase_if did not compile for element containers

---
 include/boost/icl/concept/element_associator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 8405e7f..9f15206 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -472,7 +472,7 @@ erase_if(const Predicate& pred, Type& object)
     typename Type::iterator it_ = object.begin();
     while(it_ != object.end())
         if(pred(*it_))
-            icl::erase(object, it_++);
+            object.erase(it_++);
         else ++it_;
     return object;
 }
-- 
2.43.0


From a2472107ee43c56210d7c688fda4ae1a73a827f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 10/31] fix: set_at did not compile for element maps

---
 include/boost/icl/concept/element_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b2d78ab..5f5d7f8 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -203,7 +203,7 @@ set_at(Type& object, const typename Type::element_type& operand)
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-            insertion->second = operand.second;
+            insertion.first->second = operand.second;
     }
     return object;
 }
-- 
2.43.0


From 8ff765b7616bf5bef70b24c1c83228f1e608c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 11/31] fix: subtract of a key did not compile for element maps

---
 include/boost/icl/concept/element_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 5f5d7f8..d3b095d 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -150,7 +150,8 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    return icl::erase(object, key_value);
+    icl::erase(object, key_value);
+    return object;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 35726084017a60fd5e010b77c48c5471a88045c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 12/31] fix: absorb_identities returns its argument for maps
 that keep identities

---
 include/boost/icl/concept/element_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index d3b095d..5436251 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -458,7 +458,7 @@ template<class Type>
 inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , mpl::not_<absorbs_identities<Type> > >
                          , Type>::type&
-absorb_identities(Type&){}
+absorb_identities(Type& object){ return object; }
 
 //==============================================================================
 //= Streaming<ElementMap>
-- 
2.43.0


From 6877aa0bde49c5a8e502b2f25e5c09c821465855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 13/31] fix: map::insert of a range takes any iterator and
 returns a value

---
 include/boost/icl/map.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index cbb2f21..2f1759e 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -339,9 +339,11 @@ public:
     template<class Iterator>
     iterator insert(Iterator first, Iterator last)
     {
-        iterator prior = end(), it = first;
-        while(it != last)
-            prior = this->insert(prior, *it++);
+        iterator prior = end();
+        for(Iterator it = first; it != last; ++it)
+            prior = this->insert(prior, *it);
+
+        return prior;
     }
 
     /** With <tt>key_value_pair = (k,v)</tt> set value \c v for key \c k */
-- 
2.43.0


From 71a7a51d18905729e5412aaeffaa5548ab70280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:36 +0000
Subject: [PATCH 14/31] fix: subtract of a key erases through the element map

---
 include/boost/icl/concept/element_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 5436251..e5c29e4 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -150,7 +150,7 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    icl::erase(object, key_value);
+    object.erase(key_value);
     return object;
 }
 
-- 
2.43.0


From df5d3e9ed8efc1339f6072adc102f000d9bc94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 15/31] fix: erase of a key set did not compile for element
 maps

---
 include/boost/icl/concept/element_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index e5c29e4..dc35508 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -125,7 +125,7 @@ erase(Type& object, const typename Type::set_type& erasure)
 {
     typedef typename Type::set_type set_type;
     ICL_const_FORALL(typename set_type, elem_, erasure) 
-        icl::erase(object, *elem_); 
+        object.erase(*elem_);
 
     return object; 
 }
-- 
2.43.0


From 3c35c5f3f47fdf7578e48efba9f15f7929f673b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 16/31] fix: intersection with a segment that carries the empty
 set is empty

---
 include/boost/icl/interval_base_map.hpp | 10 ++++++++--
 include/boost/icl/map.hpp               | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index 95f5aff..eea3b3d 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -535,8 +535,14 @@ private:
             interval_type common_interval = (*it_).first & inter_val; 
             if(!icl::is_empty(common_interval))
             {
-                section.template _add<codomain_combine>  (value_type(common_interval, (*it_).second) );
-                section.template _add<codomain_intersect>(value_type(common_interval, operand.second));
+                //An empty set is no neutral element of an intersection: It must not be
+                //skipped by _add<codomain_intersect> for maps that absorb identities.
+                codomain_type common_value = (*it_).second;
+                if(has_set_semantics<codomain_type>::value)
+                    codomain_intersect()(common_value, operand.second);
+                section.template _add<codomain_combine>(value_type(common_interval, common_value));
+                if(!has_set_semantics<codomain_type>::value)
+                    section.template _add<codomain_intersect>(value_type(common_interval, operand.second));
             }
         }
     }
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 2f1759e..f1e7e6e 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -401,8 +401,14 @@ private:
         const_iterator it_ = find(operand.first);
         if(it_ != end())
         {
-            section.template _add<codomain_combine  >(*it_);
-            section.template _add<codomain_intersect>(operand);
+            //An empty set is no neutral element of an intersection: It must not be
+            //skipped by _add<codomain_intersect> for maps that absorb identities.
+            codomain_type common_value = (*it_).second;
+            if(has_set_semantics<codomain_type>::value)
+                codomain_intersect()(common_value, operand.second);
+            section.template _add<codomain_combine>(element_type((*it_).first, common_value));
+            if(!has_set_semantics<codomain_type>::value)
+                section.template _add<codomain_intersect>(operand);
         }
     }
 
-- 
2.43.0


From 452c6d67b9eb3f8f6400f3b4599efab240c51a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:55 +0000
Subject: [PATCH 17/31] fix: the numeric minimum of floating point domains is
 their lowest value

---
 include/boost/icl/type_traits/is_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/type_traits/is_numeric.hpp b/include/boost/icl/type_traits/is_numeric.hpp
index 9ecc3a1..3760bb5 100644
--- a/include/boost/icl/type_traits/is_numeric.hpp
+++ b/include/boost/icl/type_traits/is_numeric.hpp
@@ -65,7 +65,7 @@ template<class Type>
 struct numeric_minimum<Type, std::less<Type>, true>
 {
     static bool is_less_than(Type value)
-    { return std::less<Type>()((std::numeric_limits<Type>::min)(), value); }
+    { return std::less<Type>()(std::numeric_limits<Type>::lowest(), value); }
 
     static bool is_less_than_or(Type value, bool cond)
     { return cond || is_less_than(value); }
-- 
2.43.0


From d0bd6948428f5a23c48060d88122de7480d4b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:30 +0000
Subject: [PATCH 18/31] fix: intervals do not touch across the numeric limits
 of their domain

---
 include/boost/icl/concept/interval.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 952775f..291c994 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -972,14 +972,17 @@ template<class Type>
 typename boost::enable_if<has_symmetric_bounds<Type>, bool>::type
 touches(const Type& left, const Type& right)
 {
-    return domain_equal<Type>(last_next(left), first(right));
+    // Stepping beyond the largest value of the domain must not make intervals touch
+    return domain_less<Type>(lower(left), first(right))
+        && domain_equal<Type>(last_next(left), first(right));
 }
 
 template<class Type>
 typename boost::enable_if<is_discrete_interval<Type>, bool>::type
 touches(const Type& left, const Type& right)
 {
-    return domain_equal<Type>(domain_next<Type>(last(left)), first(right));
+    return domain_less<Type>(last(left), first(right))
+        && domain_equal<Type>(domain_next<Type>(last(left)), first(right));
 }
 
 template<class Type>
-- 
2.43.0


From a7577c9fbec635441fb2f269657f21122fd5f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:21 +0000
Subject: [PATCH 19/31] fix: counting the elements of an interval that ends at
 the largest value

---
 include/boost/icl/concept/interval.hpp | 50 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 291c994..55f9cf1 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -1003,6 +1003,26 @@ struct is_increasing_interval
     : is_increasing< typename interval_traits<Type>::domain_type
                    , typename interval_traits<Type>::domain_compare > {};
 
+namespace detail
+{
+// Number of elements of a non empty discrete interval. It does not step beyond
+// the last element, that may be the largest value of the domain type.
+template<class ResultT, class Type>
+inline ResultT count_elements(const Type& object)
+{
+    const bool increasing = is_increasing_interval<Type>::value;
+
+    if(is_right_closed(icl::bounds(object)))
+        return static_cast<ResultT>(icl::succ(
+            increasing ? icl::last(object) - icl::first(object)
+                       : icl::first(object) - icl::last(object)));
+    else
+        return static_cast<ResultT>(
+            increasing ? icl::upper(object) - icl::first(object)
+                       : icl::first(object) - icl::upper(object));
+}
+} //namespace detail
+
 //- cardinality ----------------------------------------------------------------
 
 template<class Type>
@@ -1026,10 +1046,8 @@ typename boost::enable_if<is_discrete_interval<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object)    ? identity_element<SizeT>::value()
-        : is_increasing_interval<Type>::value
-                                    ? static_cast<SizeT>(last_next(object) - first(object))
-                                    : static_cast<SizeT>(first(object) - last_next(object));
+    return icl::is_empty(object) ? identity_element<SizeT>::value()
+                                 : detail::count_elements<SizeT>(object);
 }
 
 template<class Type>
@@ -1050,10 +1068,8 @@ typename boost::enable_if<is_discrete_asymmetric<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object)    ? identity_element<SizeT>::value()
-        : is_increasing_interval<Type>::value
-                                    ? static_cast<SizeT>(last_next(object) - first(object))
-                                    : static_cast<SizeT>(first(object) - last_next(object));
+    return icl::is_empty(object) ? identity_element<SizeT>::value()
+                                 : detail::count_elements<SizeT>(object);
 }
 
 template<class Type>
@@ -1062,10 +1078,8 @@ typename boost::enable_if<has_symmetric_bounds<Type>,
 cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
-    return icl::is_empty(object)    ? identity_element<SizeT>::value()
-        : is_increasing_interval<Type>::value
-                                    ? static_cast<SizeT>(last_next(object) - first(object))
-                                    : static_cast<SizeT>(first(object) - last_next(object));
+    return icl::is_empty(object) ? identity_element<SizeT>::value()
+                                 : detail::count_elements<SizeT>(object);
 }
 
 
@@ -1098,10 +1112,8 @@ inline typename boost::enable_if<is_discrete_interval<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object)    ? identity_element<DiffT>::value()
-        : is_increasing_interval<Type>::value
-                                    ? last_next(object) - first(object)
-                                    : first(object) - last_next(object);
+    return icl::is_empty(object) ? identity_element<DiffT>::value()
+                                 : detail::count_elements<DiffT>(object);
 }
 
 template<class Type>
@@ -1122,10 +1134,8 @@ inline typename boost::enable_if<is_discrete_static<Type>,
 length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
-    return icl::is_empty(object)    ? identity_element<DiffT>::value()
-        : is_increasing_interval<Type>::value
-                                    ? last_next(object) - first(object)
-                                    : first(object) - last_next(object);
+    return icl::is_empty(object) ? identity_element<DiffT>::value()
+                                 : detail::count_elements<DiffT>(object);
 }
 
 //- iterative_size -------------------------------------------------------------
-- 
2.43.0


From 9b9a9586a5e4c1afc132748bcbd392873dc9f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 20/31] fix: symmetric difference of an interval map with an
 empty segment

Like bcb29b0 for sets: flipping with a segment whose interval is empty
looked the empty interval up in the ordered segments. It is a no-op now.
---
 include/boost/icl/interval_base_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index eea3b3d..eeba815 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -755,6 +755,9 @@ private:
             // That which is common shall be subtracted
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
+            if(icl::is_empty(interval_value_pair.first))
+                return;
+
             interval_type span = interval_value_pair.first;
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
-- 
2.43.0


From cc30b17ab827b8f835449b64b13b6759273ab0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:10 +0000
Subject: [PATCH 21/31] fix: interval maps as operands of their own += -= and
 ^=

The in-place operators iterated over the segments of the operand while
changing (and erasing) the segments of the object; for one and the same
object that skipped segments or used freed ones. The operand is copied
if it is the object itself.
---
 include/boost/icl/concept/interval_associator.hpp | 8 ++++++++
 include/boost/icl/concept/interval_map.hpp        | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index 37c92b1..f72ff0a 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -318,6 +318,10 @@ template<class Type, class OperandT>
 typename enable_if<is_intra_combinable<Type, OperandT>, Type>::type&
 operator += (Type& object, const OperandT& operand)
 {
+    // Adding to object changes the segments we are iterating over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object += OperandT(operand);
+
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         prior_ = icl::add(object, prior_, *elem_); 
@@ -671,6 +675,10 @@ typename enable_if<is_concept_compatible<is_interval_map, Type, OperandT>,
                    Type>::type& 
 operator -=(Type& object, const OperandT& operand)
 {
+    // Subtracting from object changes the segments we are iterating over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object -= OperandT(operand);
+
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         icl::subtract(object, *elem_);
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 47b03f1..f384cac 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -540,6 +540,10 @@ flip(Type& object, const OperandT& operand)
     typedef typename OperandT::const_iterator const_iterator;
     //CL typedef typename Type::codomain_type  codomain_type;
 
+    // Flipping segments of object changes the segments we are iterating over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return icl::flip(object, OperandT(operand));
+
     const_iterator common_lwb, common_upb;
 
     if(!Set::common_range(common_lwb, common_upb, operand, object))
-- 
2.43.0


From c422428ef4b7cbff0cf6aab26f757879119b5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 22/31] fix: icl::map constructed from a range stored identity
 values

The constructors from an iterator pair bypassed insert, so a map that
absorbs identities could hold identity values after construction.
---
 include/boost/icl/map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index f1e7e6e..28fb412 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -170,12 +170,12 @@ public:
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past)
-        : base_type(first,past){}
+    { insert(first, past); }
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past, const key_compare& comp)
-        : base_type(first,past,comp)
-    {}
+        : base_type(comp)
+    { insert(first, past); }
 
     map(const map& src)
         : base_type(src)
-- 
2.43.0


From 8fe3145c89d330601d5e3b93c0ef32d0493494ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 23/31] fix: setting a key of an absorbing icl::map to the
 identity element

set and set_at left the old value in place. Like for interval maps the
key is removed now.
---
 include/boost/icl/concept/element_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index dc35508..ab2aacd 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -200,7 +200,9 @@ set_at(Type& object, const typename Type::element_type& operand)
     typedef on_absorbtion<Type,codomain_combine,absorbs_identities<Type>::value>
                                             on_identity_absorbtion;
 
-    if(!on_identity_absorbtion::is_absorbable(operand.second))
+    if(on_identity_absorbtion::is_absorbable(operand.second))
+        object.erase(operand.first);
+    else
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-- 
2.43.0


From 6aac788765b39d0f19658153101713bfe46ce018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:14 +0000
Subject: [PATCH 24/31] fix: element containers as operands of their own += -=
 ^= and erase

---
 include/boost/icl/concept/element_associator.hpp | 8 +++++++-
 include/boost/icl/concept/element_map.hpp        | 6 ++++++
 include/boost/icl/concept/element_set.hpp        | 3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 9f15206..198d1c2 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -192,7 +192,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator += (Type& object, const Type& operand)
 {
     if(&object == &operand)
-        return object;
+        return object += Type(operand);
 
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename Type, it_, operand)
@@ -306,6 +306,9 @@ template<class Type>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase(Type& object, const Type& erasure)
 {
+    if(&object == &erasure)
+        return icl::erase(object, Type(erasure));
+
     ICL_const_FORALL(typename Type, elem_, erasure)
         icl::erase(object, *elem_);
 
@@ -335,6 +338,9 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator -= (Type& object, const Type& subtrahend)
 {
+    if(&object == &subtrahend)
+        return object -= Type(subtrahend);
+
     ICL_const_FORALL(typename Type, it_, subtrahend)
         icl::subtract(object, *it_);
 
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index ab2aacd..f5d2e1e 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -394,6 +394,9 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , Type>::type&
 operator ^= (Type& object, const Type& operand)
 {
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     ICL_const_FORALL(typename Type, it_, operand)
         icl::flip(object, *it_);
 
@@ -419,6 +422,9 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , Type>::type&
 operator ^= (Type& object, const Type& operand)
 {
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     typedef typename Type::const_iterator const_iterator;
     const_iterator it_ = operand.begin();
     while(it_ != operand.end())
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index 8db130e..2ea9a46 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -104,6 +104,9 @@ template<class Type>
 inline typename enable_if<is_element_set<Type>, Type>::type&
 operator ^= (Type& object, const Type& operand)
 {
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     typedef typename Type::const_iterator const_iterator;
     const_iterator it_ = operand.begin();
     while(it_ != operand.end())
-- 
2.43.0


From 77c5ed656906e9447336e89d7ad90f7ef9dfda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 25/31] fix: static_interval factories shift bounds in the
 direction of the Compare order

---
 include/boost/icl/concept/interval_bounds.hpp | 26 +++++++++++++++++++
 include/boost/icl/interval.hpp                |  7 ++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/interval_bounds.hpp b/include/boost/icl/concept/interval_bounds.hpp
index 886701d..09f1ea2 100644
--- a/include/boost/icl/concept/interval_bounds.hpp
+++ b/include/boost/icl/concept/interval_bounds.hpp
@@ -11,6 +11,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/interval_bounds.hpp>
 #include <boost/icl/type_traits/is_discrete.hpp>
 #include <boost/icl/type_traits/is_numeric.hpp>
+#include <boost/icl/type_traits/succ_pred.hpp>
 
 namespace boost{namespace icl
 {
@@ -104,6 +105,31 @@ shift_upper(interval_bounds decl, interval_bounds repr, const Type& up)
         return up;
 }
 
+// Shifts in the direction of a given order on the domain_type
+template <class Type, class Compare>
+inline typename enable_if<is_discrete<Type>, Type>::type
+shift_lower(interval_bounds decl, interval_bounds repr, const Type& low, const Compare&)
+{
+    if(is_left_closed(decl) && !is_left_closed(repr))
+        return icl::predecessor<Type,Compare>::apply(low);
+    else if(!is_left_closed(decl) && is_left_closed(repr)) 
+        return icl::successor<Type,Compare>::apply(low);
+    else 
+        return low;
+}
+
+template <class Type, class Compare>
+inline typename enable_if<is_discrete<Type>, Type>::type
+shift_upper(interval_bounds decl, interval_bounds repr, const Type& up, const Compare&)
+{
+    if(!is_right_closed(decl) && is_right_closed(repr))
+        return icl::predecessor<Type,Compare>::apply(up);
+    else if(is_right_closed(decl) && !is_right_closed(repr)) 
+        return icl::successor<Type,Compare>::apply(up);
+    else 
+        return up;
+}
+
 template<class CharType, class CharTraits>
 std::basic_ostream<CharType, CharTraits>& operator <<
   (std::basic_ostream<CharType, CharTraits> &stream, 
diff --git a/include/boost/icl/interval.hpp b/include/boost/icl/interval.hpp
index df50dfd..90752e6 100644
--- a/include/boost/icl/interval.hpp
+++ b/include/boost/icl/interval.hpp
@@ -99,13 +99,14 @@ namespace boost{ namespace icl
     template <class IntervalT, bound_type PretendedBounds, bound_type RepresentedBounds> 
     struct static_interval<IntervalT, true, PretendedBounds, RepresentedBounds>
     {// is_discrete<domain_type<IntervalT>>
-        typedef typename interval_traits<IntervalT>::domain_type domain_type;
+        typedef typename interval_traits<IntervalT>::domain_type    domain_type;
+        typedef typename interval_traits<IntervalT>::domain_compare domain_compare;
 
         static inline IntervalT construct(const domain_type& low, const domain_type& up)
         {
             return icl::construct<IntervalT>(
-                  shift_lower(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), low)
-                , shift_upper(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), up )
+                  shift_lower(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), low, domain_compare())
+                , shift_upper(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), up , domain_compare())
                 ); 
         }
     };
-- 
2.43.0


From b027c9331f0e4d41e0b13fe4481ca3035d875715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 26/31] fix: intersecting an interval map with a key whose
 interval type has no value constructor

---
 include/boost/icl/concept/interval_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index f384cac..001676c 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -374,7 +374,7 @@ add_intersection(Type& section, const Type& object,
 
     const_iterator it_ = icl::find(object, key_value);
     if(it_ != object.end())
-        add(section, segment_type(interval_type(key_value),(*it_).second));
+        add(section, segment_type(icl::singleton<interval_type>(key_value),(*it_).second));
 }
 
 template<class Type>
-- 
2.43.0


From a21d39e3b4e171887204b67b512a4fa4c3eeb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 27/31] fix: interval_set(value) for interval types without
 value constructor

---
 include/boost/icl/interval_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/interval_set.hpp b/include/boost/icl/interval_set.hpp
index 22f97a4..e5c18f5 100644
--- a/include/boost/icl/interval_set.hpp
+++ b/include/boost/icl/interval_set.hpp
@@ -107,7 +107,7 @@ public:
 
     /// Constructor for a single element
     explicit interval_set(const domain_type& value): base_type() 
-    { this->add(interval_type(value)); }
+    { this->add(value); }
 
     /// Constructor for a single interval
     explicit interval_set(const interval_type& itv): base_type() 
-- 
2.43.0


From 5e1367f7ad229de72159984663e39c79b303c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 28/31] fix: co_value of interval sets of user defined interval
 types

---
 include/boost/icl/concept/interval_set_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval_set_value.hpp b/include/boost/icl/concept/interval_set_value.hpp
index 027616e..167fa47 100644
--- a/include/boost/icl/concept/interval_set_value.hpp
+++ b/include/boost/icl/concept/interval_set_value.hpp
@@ -23,7 +23,7 @@ inline typename enable_if<is_interval_set<Type>, typename Type::codomain_type>::
 co_value(Iterator value_)
 { 
     typedef typename Type::codomain_type codomain_type;
-    return icl::is_empty(*value_)? codomain_type() : (*value_).lower(); 
+    return icl::is_empty(*value_)? codomain_type() : icl::lower(*value_); 
 }
 
 }} // namespace boost icl
-- 
2.43.0


From 74cd4c8a02d9f25da44c0bfc62a4f67bf504f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:47 +0000
Subject: [PATCH 29/31] fix: element iterators over maps of user defined
 interval types

---
 include/boost/icl/detail/element_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index e194d31..2121eb8 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -271,7 +271,7 @@ public:
     typedef element_iterator                                type;
     typedef SegmentIteratorT                                segment_iterator;
     typedef typename SegmentIteratorT::value_type           segment_type;
-    typedef typename first_element<segment_type>::type      interval_type;
+    typedef typename elemental<segment_type>::interval_type interval_type;
     typedef typename elemental<segment_type>::type          element_type;
     typedef typename elemental<segment_type>::domain_type   domain_type;
     typedef typename elemental<segment_type>::codomain_type codomain_type;
-- 
2.43.0


From d23ff44c5099028b60b627198eee5e87bca7fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 30/31] fix: cardinality of intervals that are wider than the
 difference type

---
 include/boost/icl/concept/interval.hpp | 33 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 55f9cf1..dde495a 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -14,6 +14,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/mpl/and.hpp>
 #include <boost/mpl/or.hpp>
 #include <boost/mpl/not.hpp>
+#include <boost/type_traits/is_integral.hpp>
 #include <boost/icl/detail/design_config.hpp>
 #include <boost/icl/type_traits/unit_element.hpp>
 #include <boost/icl/type_traits/identity_element.hpp>
@@ -1005,21 +1006,39 @@ struct is_increasing_interval
 
 namespace detail
 {
+// Number of steps from low to high. For integral types it is computed in the type
+// of the result, because it may exceed the difference_type of the domain.
+template<class ResultT, class DomainT>
+inline typename enable_if< mpl::and_< boost::is_integral<ResultT>, boost::is_integral<DomainT> >
+                         , ResultT>::type
+count_steps(const DomainT& low, const DomainT& high, bool plus_one)
+{
+    return static_cast<ResultT>(  static_cast<ResultT>(high) - static_cast<ResultT>(low)
+                                + static_cast<ResultT>(plus_one ? 1 : 0) );
+}
+
+template<class ResultT, class DomainT>
+inline typename disable_if< mpl::and_< boost::is_integral<ResultT>, boost::is_integral<DomainT> >
+                          , ResultT>::type
+count_steps(const DomainT& low, const DomainT& high, bool plus_one)
+{
+    return static_cast<ResultT>(plus_one ? icl::succ(high - low) : high - low);
+}
+
 // Number of elements of a non empty discrete interval. It does not step beyond
 // the last element, that may be the largest value of the domain type.
 template<class ResultT, class Type>
 inline ResultT count_elements(const Type& object)
 {
     const bool increasing = is_increasing_interval<Type>::value;
+    const bool closed     = is_right_closed(icl::bounds(object));
 
-    if(is_right_closed(icl::bounds(object)))
-        return static_cast<ResultT>(icl::succ(
-            increasing ? icl::last(object) - icl::first(object)
-                       : icl::first(object) - icl::last(object)));
+    if(increasing)
+        return count_steps<ResultT>( icl::first(object)
+                                   , closed ? icl::last(object) : icl::upper(object), closed);
     else
-        return static_cast<ResultT>(
-            increasing ? icl::upper(object) - icl::first(object)
-                       : icl::first(object) - icl::upper(object));
+        return count_steps<ResultT>( closed ? icl::last(object) : icl::upper(object)
+                                   , icl::first(object), closed);
 }
 } //namespace detail
 
-- 
2.43.0


From 7123f19a41651c0e48c8eab1cd7100a19849039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:30 +0000
Subject: [PATCH 31/31] fix: domain of an element map cleared of earlier
 contents

domain(set, icl::map) added the keys to whatever the set held before, while
domain of interval sets and interval maps assigns the result.
---
 include/boost/icl/concept/element_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index f5d2e1e..f4e78ca 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -442,6 +442,7 @@ inline typename enable_if<is_element_map<Type>,
                           typename Type::set_type>::type&
 domain(typename Type::set_type& domain_set, const Type& object)
 {
+    domain_set.clear();
     typename Type::set_type::iterator prior_ = domain_set.end();
     typename Type::const_iterator it_ = object.begin();
     while(it_ != object.end())
-- 
2.43.0

