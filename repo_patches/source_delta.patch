From 58c42cc71ac68a3451f580cc71cfac844d1c0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 01/65] fix: convert the right operand's scan orientation when
 a 90-set view's left operand is not a set

A Boolean view whose left operand is not a polygon_90_set_data (a rectangle,
a polygon, a container or another view) used the raw data of a right
polygon_90_set_data even when that set stores the other scan orientation, so
its geometry was transposed.
---
 .../boost/polygon/detail/polygon_90_set_view.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..6f7b36e 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -110,12 +110,18 @@ namespace boost { namespace polygon{
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
         insert_into_view_arg(linput_, lvalue_, orient_l);
-        rvalue_.sort();
         //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
         //          << "," << orient_.to_int() << std::endl;
-
-        output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
-                                     rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        if(orient_ == rvalue_.orient()) {
+          rvalue_.sort();
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        } else { // the right hand side data is stored in the other orientation
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, rvalue_.orient());
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+        }
       }
     };
 
-- 
2.43.0


From dacad6375824148d60e974eb0df9d61cfb9696a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 02/65] fix: give keyholed polygons formed from a 90-set the
 documented counterclockwise winding

---
 .../polygon/detail/polygon_formation.hpp      | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index f4c0d70..927bb08 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -618,6 +618,28 @@ namespace polygon_formation {
     inline ActiveTail<Unit>* yield() { return p_; }
   };
 
+  //a polygon that is not a hole: same as PolyLineHoleData with the opposite winding
+  template<bool orientT, typename Unit>
+  class PolyLineOuterData {
+  private:
+    ActiveTail<Unit>* p_;
+  public:
+    typedef Unit coordinate_type;
+    typedef typename ActiveTail<Unit>::iterator compact_iterator_type;
+    typedef iterator_compact_to_points<compact_iterator_type, point_data<coordinate_type> > iterator_type;
+    inline PolyLineOuterData() : p_(0) {}
+    inline PolyLineOuterData(ActiveTail<Unit>* p) : p_(p) {}
+    //use default copy and assign
+    inline compact_iterator_type begin_compact() const { return p_->begin(false, (orientT ? VERTICAL : HORIZONTAL)); }
+    inline compact_iterator_type end_compact() const { return p_->end(); }
+    inline iterator_type begin() const { return iterator_type(begin_compact(), end_compact()); }
+    inline iterator_type end() const { return iterator_type(end_compact(), end_compact()); }
+    inline std::size_t size() const {
+       return p_->getPolyLineSize();
+    }
+    inline ActiveTail<Unit>* yield() { return p_; }
+  };
+
   template<bool orientT, typename Unit>
   class PolyLinePolygonWithHolesData {
   private:
@@ -679,11 +701,11 @@ namespace polygon_formation {
   template <bool orientT, typename Unit>
   struct PolyLineType<orientT, Unit, polygon_with_holes_concept> { typedef PolyLinePolygonWithHolesData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLineOuterData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLineOuterData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLineOuterData<orientT, Unit> type; };
 
   template <bool orientT, typename Unit, typename polygon_concept_type>
   class ScanLineToPolygonItrs {
@@ -2191,6 +2213,10 @@ namespace polygon_formation {
   struct geometry_concept<polygon_formation::PolyLineHoleData<orientT, Unit> > {
     typedef polygon_90_concept type;
   };
+  template <bool orientT, typename Unit>
+  struct geometry_concept<polygon_formation::PolyLineOuterData<orientT, Unit> > {
+    typedef polygon_90_concept type;
+  };
 
   //public API to access polygon formation algorithm
   template <typename output_container, typename iterator_type, typename concept_type>
-- 
2.43.0


From 3c0d379191df0935d6a6f7eaa851ecbc6c499d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 03/65] fix: make polygon_90_set_data's copy constructor with
 an orientation compile

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..6bcd430 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that);
     }
 
     // destructor
-- 
2.43.0


From 25d26e15440cbe488da44b6046920167b166d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 04/65] fix: keep the orientation given to
 polygon_90_set_data's range constructor

---
 include/boost/polygon/polygon_90_set_data.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 6bcd430..80ddb9d 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -46,11 +46,11 @@ namespace boost { namespace polygon{
 
     // constructor from an iterator pair over vertex data
     template <typename iT>
-    inline polygon_90_set_data(orientation_2d, iT input_begin, iT input_end) :
-      orient_(HORIZONTAL), data_(), dirty_(false), unsorted_(false) {
+    inline polygon_90_set_data(orientation_2d orient, iT input_begin, iT input_end) :
+      orient_(orient), data_(), dirty_(false), unsorted_(false) {
       dirty_ = true;
       unsorted_ = true;
-      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin); }
+      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin, false, orient); }
     }
 
     // copy constructor
-- 
2.43.0


From c1f1a8cebd27091672a788e57f7bba9ec57c5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 05/65] fix: compare the geometry of polygon_90_set_data
 objects of different scan orientation

---
 include/boost/polygon/polygon_90_set_data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 80ddb9d..db00965 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -203,7 +203,8 @@ namespace boost { namespace polygon{
         p.clean();
         return data_ == p.data_;
       } else {
-        return false;
+        //compare the same geometry scanned in the same orientation
+        return (*this) == polygon_90_set_data(orient_, p);
       }
     }
 
-- 
2.43.0


From 1b2b29a709543192be140d9188aa64b9fb414359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 06/65] fix: self_intersect of a clean polygon_90_set_data
 retains nothing

---
 include/boost/polygon/polygon_90_set_data.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index db00965..fbd4871 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -778,11 +778,13 @@ namespace boost { namespace polygon{
 
     polygon_90_set_data& self_intersect() {
       sort();
-      if(dirty_) { //if it is clean it is a no-op
+      if(dirty_) {
         interval_data<coordinate_type> ivl((std::numeric_limits<coordinate_type>::min)(), (std::numeric_limits<coordinate_type>::max)());
         rectangle_data<coordinate_type> rect(ivl, ivl);
         insert(rect, true);
         clean();
+      } else { //if it is clean there are no overlaps
+        clear();
       }
       return *this;
     }
-- 
2.43.0


From 0b5fe5ab743e019715b5d3dd3a165f6976a7899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 07/65] fix: scale y with the vertical factor in
 anisotropic_scale_factor::scale

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..195393b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From 52ccd1bdbac00b3855b49b2d128518a82043fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 08/65] fix: transformation::operator+= used uninitialised
 coordinates as the translation

---
 include/boost/polygon/transform.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 195393b..973b041 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -405,9 +405,9 @@ class transformation {
 
   // concatenate this with that
   const transformation& operator+=(const transformation& tr) {
-    coordinate_type x, y;
-    transformation<coordinate_type> inv = inverse();
-    inv.transform(x, y);
+    // the translation of that, seen in the coordinate system of this
+    coordinate_type x = tr.p_.get(HORIZONTAL), y = tr.p_.get(VERTICAL);
+    atr_.inverse().transform(x, y);
     p_.set(HORIZONTAL, p_.get(HORIZONTAL) + x);
     p_.set(VERTICAL, p_.get(VERTICAL) + y);
     // concatenate axis transforms
-- 
2.43.0


From 92d57e9f82c07bbc924775da69becafcf831be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 09/65] fix: a scaled polygon_90_set_data may hold coincident
 edges, so it is dirty

---
 include/boost/polygon/polygon_90_set_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index fbd4871..eac89b9 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -727,6 +727,7 @@ namespace boost { namespace polygon{
         (*itr).first = scaling_policy<coordinate_type>::round((dt)((*itr).first) / (dt)factor);
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) / (dt)factor);
       }
+      dirty_ = true;
       unsorted_ = true; //scaling down can make coordinates equal that were not previously equal
       return *this;
     }
@@ -740,6 +741,7 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
+      dirty_ = true;
       unsorted_ = true;
       return *this;
     }
@@ -753,6 +755,7 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
+      dirty_ = true;
       unsorted_ = true;
       return *this;
     }
@@ -763,6 +766,7 @@ namespace boost { namespace polygon{
         (*itr).first = scaling_policy<coordinate_type>::round((dt)((*itr).first) * (dt)factor);
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) * (dt)factor);
       }
+      dirty_ = true;
       unsorted_ = true; //scaling make coordinates equal that were not previously equal
       return *this;
     }
-- 
2.43.0


From 8858bb0c716d8e2990559bba6b5ae40ff4fcac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 10/65] fix: polygon_90_set_data::interact left unmerged
 polygons marked as clean

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index eac89b9..b27c13f 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -812,7 +812,6 @@ namespace boost { namespace polygon{
       for(std::set<int>::iterator itr = graph[0].begin(); itr != graph[0].end(); ++itr){
         insert(polys[(*itr)-1]);
       }
-      dirty_ = false;
       return *this;
     }
 
-- 
2.43.0


From 72990df09ce5ab3c83fad394f52e577ec47d26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 11/65] fix: insert geometry as hole into polygon_45_set_data

insert_clean discarded the result of count.invert(), so vertices, vertex
ranges and polygon_90_set_data inserted with is_hole were added as solid
(or, for polygon_90_set_data, got one slope count negated twice).
---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..23de9bd 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From d86d88840aa81e7239da1c5ff1236be778dd6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 12/65] fix: 45-degree booleans dropped earlier error data

When a non-integral intersection made a boolean retry at double scale,
result.clear() also discarded the error data inherited from the operands,
so has_error_data and get_error_data no longer bounded the result's error.
---
 include/boost/polygon/polygon_45_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 23de9bd..47018cc 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1581,7 +1581,7 @@ namespace boost { namespace polygon{
       } catch (std::string str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
-          result.clear();
+          result.data_.clear();
           typedef typename coordinate_traits<Unit>::manhattan_area_type Unit2;
           typedef typename polygon_45_formation<Unit2>::Vertex45Compact Vertex45Compact2;
           typedef std::vector<Vertex45Compact2> Data2;
@@ -1702,7 +1702,7 @@ namespace boost { namespace polygon{
       } catch (std::string str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
-          result.clear();
+          result.data_.clear();
           typedef typename coordinate_traits<Unit>::manhattan_area_type Unit2;
           typedef typename polygon_45_formation<Unit2>::Vertex45Compact Vertex45Compact2;
           typedef std::vector<Vertex45Compact2> Data2;
-- 
2.43.0


From e1c76c927317463ed5f702695d7a035e8baf5f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:49 +0000
Subject: [PATCH 13/65] fix: polygon_45_set_data::empty ignored uncleaned
 subtractive geometry

The documentation says empty scans and eliminates overlaps, as the
Manhattan set does.
---
 include/boost/polygon/polygon_45_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 47018cc..bcd916a 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -186,7 +186,7 @@ namespace boost { namespace polygon{
     inline void clear() { data_.clear(); error_data_.clear(); dirty_ = unsorted_ = false; is_manhattan_ = true; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const { clean(); return data_.empty(); }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From 2447fb44d997efc51062c3a152f5925985646244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 14/65] fix: overwriting a polygon_45_set_data kept stale
 Manhattan flag and error data

operator=(geometry), set and set_clean replaced the vertices but left
is_manhattan_ and error_data_ of the previous contents, so that a set whose
flag was stale ran the Manhattan code on 45 degree data or reported
Manhattan geometry as 45.
---
 include/boost/polygon/polygon_45_set_data.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index bcd916a..509bf22 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -75,7 +75,7 @@ namespace boost { namespace polygon{
 
     template <typename geometry_object>
     inline polygon_45_set_data& operator=(const geometry_object& geometry) {
-      data_.clear();
+      clear();
       insert(geometry);
       return *this;
     }
@@ -217,7 +217,7 @@ namespace boost { namespace polygon{
 
     template <typename input_iterator_type>
     void set(input_iterator_type input_begin, input_iterator_type input_end) {
-      data_.clear();
+      clear();
       reserve(std::distance(input_begin, input_end));
       insert(input_begin, input_end);
       dirty_ = true;
@@ -225,13 +225,13 @@ namespace boost { namespace polygon{
     }
 
     void set_clean(const value_type& value) {
-      data_ = value;
+      set_data_(value);
       dirty_ = false;
       unsorted_ = false;
     }
 
     void set(const value_type& value) {
-      data_ = value;
+      set_data_(value);
       dirty_ = true;
       unsorted_ = true;
     }
@@ -439,6 +439,15 @@ namespace boost { namespace polygon{
     void applyAdaptiveBoolean_(polygon_45_set_data& result, const polygon_45_set_data& rvalue) const;
     template <int op>
     void applyAdaptiveUnary_() const;
+    //overwrite all of the vertex data and what is known about it
+    void set_data_(const value_type& value) {
+      data_ = value;
+      error_data_.clear();
+      is_manhattan_ = true;
+      for(typename value_type::const_iterator itr = data_.begin(); itr != data_.end(); ++itr) {
+        if(itr->count.is_45()) is_manhattan_ = false;
+      }
+    }
   };
 
   template <typename T>
-- 
2.43.0


From 329b463ebd344c7cd3b79e954c4eda964b16fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 15/65] fix: equal 45-degree sets compared unequal when made by
 the Manhattan path

The Manhattan scan emits several entries for a vertex where corners touch;
the 45 degree scan adds them up.  Merge them so that clean data is canonical.
---
 include/boost/polygon/polygon_45_set_data.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 509bf22..59cdfe1 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -448,6 +448,19 @@ namespace boost { namespace polygon{
         if(itr->count.is_45()) is_manhattan_ = false;
       }
     }
+    //add up the counts of coincident vertices of sorted data, as the 45 degree
+    //scan does, so that the Manhattan code path gives the same canonical form
+    static void merge_coincident_vertices_(value_type& data) {
+      std::size_t size = 0;
+      for(std::size_t i = 0; i < data.size(); ++i) {
+        if(size != 0 && data[size - 1].pt == data[i].pt) {
+          data[size - 1].count += data[i].count;
+        } else {
+          data[size++] = data[i];
+        }
+      }
+      data.resize(size);
+    }
   };
 
   template <typename T>
@@ -1579,6 +1592,7 @@ namespace boost { namespace polygon{
 #endif
       result.data_.clear();
       result.insert(output);
+      merge_coincident_vertices_(result.data_);
       result.is_manhattan_ = true;
       result.dirty_ = false;
       result.unsorted_ = false;
@@ -1701,6 +1715,7 @@ namespace boost { namespace polygon{
 #endif
       result.data_.clear();
       result.insert(l90sd);
+      merge_coincident_vertices_(result.data_);
       result.is_manhattan_ = true;
       result.dirty_ = false;
       result.unsorted_ = false;
-- 
2.43.0


From 16d57030a5963a3cd97ce49d32f58fa1c72d082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 16/65] fix: SQRT1OVER2 resize misplaced corners after downward
 45 degree edges

bloatVertexInDirWithSQRT1OVER2 moved the vertex to the wrong side of the
edge when the second edge of a corner runs northwest or southeast.
---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 59cdfe1..b4b81dd 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -997,9 +997,9 @@ namespace boost { namespace polygon{
       }
     } else if(edge1 == 3) {
       if(normal1 == 1) {
-        move(pt1, orient, multiplier * bloating);
+        move(pt1, orient, bloating);
       } else {
-        move(pt1, orientp, -multiplier * bloating);
+        move(pt1, orientp, -bloating);
       }
     } else if(edge1 == 5) {
       if(normal1 == 3) {
@@ -1009,9 +1009,9 @@ namespace boost { namespace polygon{
       }
     } else {
       if(normal1 == 5) {
-        move(pt1, orient, -multiplier * bloating);
+        move(pt1, orient, -bloating);
       } else {
-        move(pt1, orientp, multiplier * bloating);
+        move(pt1, orientp, bloating);
       }
     }
     return pt1;
-- 
2.43.0


From 0349621261877e0b2f679c1dafa8d21d3539a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 17/65] fix: polygon_set_data::empty was false for sets with
 only subtractive geometry

---
 include/boost/polygon/polygon_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 32dd800..90fdb29 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -296,7 +296,7 @@ namespace boost { namespace polygon {
     inline void clear() { data_.clear(); dirty_ = unsorted_ = false; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const { clean(); return data_.empty(); }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From 05e198fe1f848e5a357f498ec5c09a1f192718c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 18/65] fix: polygon_set_data::extents could not be called on a
 const set

---
 include/boost/polygon/polygon_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 90fdb29..e137b2d 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -338,7 +338,7 @@ namespace boost { namespace polygon {
     }
 
     template <typename rectangle_type>
-    bool extents(rectangle_type& rect) {
+    bool extents(rectangle_type& rect) const {
       clean();
       if(empty()) return false;
       bool first_iteration = true;
-- 
2.43.0


From 23ae9d2795345c9d3a0757fc8fca7c34f0176312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 19/65] fix: polygon_set_data::scale did not compile

---
 include/boost/polygon/polygon_set_data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index e137b2d..c909503 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -399,9 +399,8 @@ namespace boost { namespace polygon {
     }
 
     template <typename scaling_type>
-    inline polygon_set_data& scale(polygon_set_data&,
-                                   const scaling_type& scaling) {
-      for(typename value_type::iterator itr = begin(); itr != end(); ++itr) {
+    inline polygon_set_data& scale(const scaling_type& scaling) {
+      for(typename value_type::iterator itr = data_.begin(); itr != data_.end(); ++itr) {
         bool vb = (*itr).first.first.x() == (*itr).first.second.x();
         ::boost::polygon::scale((*itr).first.first, scaling);
         ::boost::polygon::scale((*itr).first.second, scaling);
-- 
2.43.0


From 63584c88dcf65f4ce13a056465d51b83c0de4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 20/65] fix: polygon_set_data::concept_downcast took Manhattan
 edges for arbitrary angle

---
 include/boost/polygon/polygon_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index c909503..e4f3586 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -759,7 +759,7 @@ namespace boost { namespace polygon {
         const element_type& elem = *itr;
         delta_type h_delta = euclidean_distance(elem.first.first, elem.first.second, HORIZONTAL);
         delta_type v_delta = euclidean_distance(elem.first.first, elem.first.second, VERTICAL);
-        if(h_delta != 0 || v_delta != 0) {
+        if(h_delta != 0 && v_delta != 0) {
           //neither delta is zero and the edge is not MANHATTAN
           if(v_delta != h_delta && v_delta != -h_delta) return POLYGON_SET_CONCEPT;
           else is_45 = true;
-- 
2.43.0


From 1504f8242a6779f3c09e2097ab8759333df2791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 21/65] fix: a cleared polygon_set_data stayed marked as
 arbitrary angle

---
 include/boost/polygon/polygon_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index e4f3586..07f900b 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -293,7 +293,7 @@ namespace boost { namespace polygon {
     }
 
     // clear the contents of the polygon_set_data
-    inline void clear() { data_.clear(); dirty_ = unsorted_ = false; }
+    inline void clear() { data_.clear(); dirty_ = unsorted_ = false; is_45_ = true; }
 
     // find out if Polygon set is empty
     inline bool empty() const { clean(); return data_.empty(); }
-- 
2.43.0


From e9705d804417300ff5a4ebdd5bd41e3262398675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 22/65] fix: line intersection of no segments read an empty
 histogram

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..0b50dea 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -118,6 +118,7 @@ namespace boost { namespace polygon{
     template <typename iT>
     static inline void validate_scan_divide_and_conquer(std::vector<std::set<Point> >& intersection_points,
                                                         iT begin, iT end) {
+      if(begin == end) return;
       std::vector<std::pair<Unit, std::pair<std::size_t, std::size_t> > > histogram;
       compute_histogram_in_y(begin, end, std::distance(begin, end), histogram);
       std::vector<Unit> y_cuts;
-- 
2.43.0


From bffa391647fd9d64bb5e46ef1353eb7a9277a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 23/65] fix: polygon_set_data::empty of a dirty set leaves the
 set as it was

---
 include/boost/polygon/polygon_set_data.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 07f900b..5797360 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -296,7 +296,12 @@ namespace boost { namespace polygon {
     inline void clear() { data_.clear(); dirty_ = unsorted_ = false; is_45_ = true; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { clean(); return data_.empty(); }
+    inline bool empty() const {
+      if(!dirty_ || data_.empty()) return data_.empty();
+      polygon_set_data cleaned(*this);
+      cleaned.clean();
+      return cleaned.data_.empty();
+    }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From ec40c7eb2c86a2f91fc7647ddcc3c84ae1fc2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 24/65] fix: voronoi robust_cross_product overflowed on sums of
 products of 32 bit differences

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..c4bbb0b 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -68,10 +68,10 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -(to_fpt(l) + to_fpt(r));
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return to_fpt(l) + to_fpt(r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
-- 
2.43.0


From 3d693872099c067925403507c22bdc446ed6c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 25/65] fix: voronoi accepted circle events of bisectors that
 do not converge

---
 .../polygon/detail/voronoi_predicates.hpp     | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index c4bbb0b..edb02ec 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1504,10 +1504,47 @@ class voronoi_predicates {
           lies_outside_vertical_segment(circle, site3)) {
         return false;
       }
+      // (segment, point, point) and (point, point, segment) sites.
+      if (!site2.is_segment() && site1.is_segment() != site3.is_segment())
+        return !is_behind_sweepline_contact(circle, site1, site3);
       return true;
     }
 
    private:
+    // The circle event touches the sweepline in its rightmost point R. As the
+    // three arcs follow each other along the beach line, R has to lie between
+    // the points where the third and the first site touch the circle. Returns
+    // true if it certainly does not, thus the bisectors of the three sites
+    // don't converge, although a common tangent circle exists.
+    bool is_behind_sweepline_contact(const circle_type& c,
+                                     const site_type& site1,
+                                     const site_type& site3) {
+      fpt_type r = c.lower_x() - c.x();
+      fpt_type x1, y1, x3, y3;
+      contact_vector(c, r, site1, x1, y1);
+      contact_vector(c, r, site3, x3, y3);
+      fpt_type cross = (r - x3) * y1 + y3 * (x1 - r);
+      fpt_type scale = r + (is_neg(c.x()) ? -c.x() : c.x()) +
+                           (is_neg(c.y()) ? -c.y() : c.y());
+      return cross > r * scale * to_fpt(1E-12);
+    }
+
+    // Vector from the center of the circle to the point it touches the site.
+    void contact_vector(const circle_type& c, const fpt_type& r,
+                        const site_type& s, fpt_type& x, fpt_type& y) {
+      x = to_fpt(s.x0()) - c.x();
+      y = to_fpt(s.y0()) - c.y();
+      if (s.is_segment()) {
+        fpt_type dx = to_fpt(s.x1()) - to_fpt(s.x0());
+        fpt_type dy = to_fpt(s.y1()) - to_fpt(s.y0());
+        fpt_type k = r / get_sqrt(dx * dx + dy * dy);
+        if (dx * y < dy * x)
+          k = -k;
+        x = -dy * k;
+        y = dx * k;
+      }
+    }
+
     bool lies_outside_vertical_segment(
         const circle_type& c, const site_type& s) {
       if (!s.is_segment() || !is_vertical(s)) {
-- 
2.43.0


From b81f41dd82527af904160077f22d943ce406b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 26/65] fix: voronoi pss circle formation negated a 32 bit
 ordinate before widening it

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index edb02ec..beffaf8 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1283,14 +1283,14 @@ class voronoi_predicates {
             static_cast<int_x2_type>(segm_start2.x()),
             static_cast<int_x2_type>(segm_end2.y()) -
             static_cast<int_x2_type>(segm_start2.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         b -= sqr_sum2 * robust_fpt_type(robust_cross_product(
             static_cast<int_x2_type>(segm_end1.x()) -
             static_cast<int_x2_type>(segm_start1.x()),
             static_cast<int_x2_type>(segm_end1.y()) -
             static_cast<int_x2_type>(segm_start1.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         t -= b;
         if (point_index == 2) {
-- 
2.43.0


From 5c8aeea1f19f90b9d0a1a16f861268c488ea64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 27/65] fix: extended_exponent_fpt lost a sum with a zero of
 large exponent

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 078d935..1715146 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -115,8 +115,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator+(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return that;
     }
     if (that.val_ == 0.0 ||
@@ -135,8 +135,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator-(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return extended_exponent_fpt(-that.val_, that.exp_);
     }
     if (that.val_ == 0.0 ||
-- 
2.43.0


From 52cbb50b96d596f023f6ae1713734e86ffd74d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 28/65] fix: extended_int difference kept leading zero chunks

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 1715146..f55f513 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -535,7 +535,7 @@ class extended_int {
       }
       sz2 = sz1;
     }
-    this->count_ = static_cast<int32>(sz1-1);
+    this->count_ = static_cast<int32>(sz1);
     bool flag = false;
     for (std::size_t i = 0; i < sz2; ++i) {
       this->chunks_[i] = c1[i] - c2[i] - (flag?1:0);
@@ -545,8 +545,8 @@ class extended_int {
       this->chunks_[i] = c1[i] - (flag?1:0);
       flag = !c1[i] && flag;
     }
-    if (this->chunks_[this->count_])
-      ++this->count_;
+    while (this->count_ && !this->chunks_[this->count_ - 1])
+      --this->count_;
   }
 
   void mul(const uint32* c1, std::size_t sz1,
-- 
2.43.0


From ac82ff228a2e387fb445628d0f61b90a8deaca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 29/65] fix: interval center and get_half overflowed for
 coordinates beyond half the range

The sum of both ends was computed in the coordinate type.
---
 include/boost/polygon/interval_concept.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 3eeec0f..f34bfe3 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -310,7 +310,10 @@ typename enable_if<
   >::type,
   typename interval_coordinate_type<IntervalType>::type
 >::type center(const IntervalType& interval) {
-  return (high(interval) + low(interval)) / 2;
+  typedef typename interval_coordinate_type<IntervalType>::type Unit;
+  typedef typename interval_difference_type<IntervalType>::type diff_type;
+  return static_cast<Unit>((static_cast<diff_type>(high(interval)) +
+                            static_cast<diff_type>(low(interval))) / 2);
 }
 
 struct y_i_delta : gtl_yes {};
@@ -902,7 +905,7 @@ typename enable_if<
   IntervalType
 >::type get_half(const IntervalType& interval, direction_1d dir) {
   typedef typename interval_coordinate_type<IntervalType>::type Unit;
-  Unit c = (get(interval, LOW) + get(interval, HIGH)) / 2;
+  Unit c = center(interval);
   return construct<IntervalType>(
       (dir == LOW) ? get(interval, LOW) : c,
       (dir == LOW) ? c : get(interval, HIGH));
-- 
2.43.0


From 91bde3f5ba35510eed43bd622882c94f56f6a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 30/65] fix: scaling float coordinates by a double rounded them
 to integers

Scaling double coordinates does not round.
---
 include/boost/polygon/isotropy.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/polygon/isotropy.hpp b/include/boost/polygon/isotropy.hpp
index 615ae39..c49c9ee 100644
--- a/include/boost/polygon/isotropy.hpp
+++ b/include/boost/polygon/isotropy.hpp
@@ -197,6 +197,15 @@ namespace boost { namespace polygon{
     }
   };
 
+  // float coordinates scaled by a double need no rounding to integers either
+  template <>
+  struct scaling_policy<float> {
+    template <typename T2>
+    static inline float round(T2 t2) {
+      return static_cast<float>(t2);
+    }
+  };
+
   struct coordinate_concept {};
 
   template <>
-- 
2.43.0


From 63609a65eddb10e384453d575eb784413cc70f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 31/65] fix: distances from a const rectangle to a point did
 not compile

The rectangle was taken by non-const reference.
---
 include/boost/polygon/rectangle_concept.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index e824319..cfe1c7b 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -891,7 +891,7 @@ namespace boost { namespace polygon{
     typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
     typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_difference_type<rectangle_type>::type>::type
-  square_euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  square_euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
@@ -918,7 +918,7 @@ namespace boost { namespace polygon{
   typename enable_if< typename gtl_and_3<y_r_edist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                                           typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
-  euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     return std::sqrt((double)(square_euclidean_distance(lvalue, rvalue)));
   }
 
@@ -940,7 +940,7 @@ namespace boost { namespace polygon{
     typename gtl_and_3<y_r_mdist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                        typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
     typename rectangle_difference_type<rectangle_type>::type>::type
-  manhattan_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  manhattan_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
-- 
2.43.0


From b11dd41a32173f1f992176e1cabb6b483ed593ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 32/65] fix: get_corner of a rectangle did not compile

There is no get of a rectangle by direction_2d.
---
 include/boost/polygon/rectangle_concept.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index cfe1c7b..8b7d3a5 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -819,8 +819,9 @@ namespace boost { namespace polygon{
     bool>::type
   get_corner(point_type& corner_point, const rectangle_type& rectangle, direction_2d direction_facing, direction_1d direction_turning) {
     typedef typename rectangle_coordinate_type<rectangle_type>::type Unit;
-    Unit u1 = get(rectangle, direction_facing);
-    Unit u2 = get(rectangle, direction_facing.turn(direction_turning));
+    direction_2d side = direction_turning == direction_1d(LOW) ? direction_facing.left() : direction_facing.right();
+    Unit u1 = get(rectangle, orientation_2d(direction_facing), direction_1d(direction_facing));
+    Unit u2 = get(rectangle, orientation_2d(side), direction_1d(side));
     if(orientation_2d(direction_facing).to_int()) std::swap(u1, u2);
     corner_point = construct<point_type>(u1, u2);
     return true;
-- 
2.43.0


From e868880633501a38fe5013fecd173a222e89ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 33/65] fix: intersect of touching rectangles ignored
 consider_touch

With consider_touch false it returned true for rectangles that only touch,
and could change one axis only.
---
 include/boost/polygon/rectangle_concept.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 8b7d3a5..5e9ee63 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -642,9 +642,12 @@ namespace boost { namespace polygon{
                                          typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        bool>::type
   intersect(rectangle_type_1& rectangle, const rectangle_type_2& b, bool consider_touch = true) {
-    if(intersects(rectangle, b)) {
-      intersect(rectangle, horizontal(b), HORIZONTAL, consider_touch);
-      intersect(rectangle, vertical(b), VERTICAL, consider_touch);
+    typename rectangle_interval_type<rectangle_type_1>::type hivl = horizontal(rectangle);
+    typename rectangle_interval_type<rectangle_type_1>::type vivl = vertical(rectangle);
+    if(intersect(hivl, horizontal(b), consider_touch) &&
+       intersect(vivl, vertical(b), consider_touch)) {
+      horizontal(rectangle, hivl);
+      vertical(rectangle, vivl);
       return true;
     }
     return false;
-- 
2.43.0


From d4839c82b3880958f1b9d9f4ab4276292b6e3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 34/65] fix: scale of a rectangle collapsed it to a point

Both corners were taken from the lower left one.
---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 5e9ee63..d0a96ea 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -1000,7 +1000,7 @@ namespace boost { namespace polygon{
                      rectangle_type>::type &
   scale(rectangle_type& rectangle, const scaling_type& scaling) {
     point_data<typename rectangle_coordinate_type<rectangle_type>::type> llp(xl(rectangle), yl(rectangle));
-    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xl(rectangle), yl(rectangle));
+    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xh(rectangle), yh(rectangle));
     scale(llp, scaling);
     scale(urp, scaling);
     set_points(rectangle, llp, urp);
-- 
2.43.0


From 394bc127efeb607809413bc7d155f60942e11259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 35/65] fix: Euclidean distance of far rectangles was wrong

The square of the distance was truncated to int.
---
 include/boost/polygon/rectangle_concept.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index d0a96ea..77dc672 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -933,8 +933,7 @@ namespace boost { namespace polygon{
                                                           typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
   euclidean_distance(const rectangle_type& lvalue, const rectangle_type_2& rvalue) {
-    double val = (int)square_euclidean_distance(lvalue, rvalue);
-    return std::sqrt(val);
+    return std::sqrt((double)(square_euclidean_distance(lvalue, rvalue)));
   }
 
   struct y_r_mdist : gtl_yes {};
-- 
2.43.0


From 7c111eec8b365de62a33fcd0892342ca27725a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 36/65] fix: distance from a segment of no length to a point
 was always zero

---
 include/boost/polygon/segment_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 2f41c1b..e59a1a7 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -656,7 +656,7 @@ euclidean_distance(const Segment& segment, const Point& point) {
     return euclidean_distance(low(segment), point);
   }
   if (length_sq == 0.0)
-    return 0.0;
+    return euclidean_distance(low(segment), point);
   Unit denom = std::sqrt(length_sq);
   Unit result = (A * D - C * B) / denom;
   return (result < 0.0) ? -result : result;
-- 
2.43.0


From 93980372bfccabf412f11b1c5285c991fc8c2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 37/65] fix: axis_transformation::combine_axis_arrays did not
 concatenate

It kept the axes of the first array and could not clear flips.
---
 include/boost/polygon/transform.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 973b041..faf2f4e 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -190,16 +190,12 @@ class axis_transformation {
   static void combine_axis_arrays(INDIVIDUAL_AXIS this_array[],
                                   const INDIVIDUAL_AXIS that_array[]) {
     int indexes[2] = { this_array[0] >> 1, this_array[1] >> 1 };
-    int zero_bits[2][2] = {
-      { this_array[0] & 1, this_array[1] & 1 },
-      { that_array[0] & 1, that_array[1] & 1 }
-    };
-    this_array[0] = (INDIVIDUAL_AXIS)((int)this_array[0] |
-                                      ((int)zero_bits[0][0] ^
-                                       (int)zero_bits[1][indexes[0]]));
-    this_array[1] = (INDIVIDUAL_AXIS)((int)this_array[1] |
-                                      ((int)zero_bits[0][1] ^
-                                       (int)zero_bits[1][indexes[1]]));
+    int zero_bits[2] = { this_array[0] & 1, this_array[1] & 1 };
+    // each axis goes where that_array takes the axis this_array takes it to
+    this_array[0] = (INDIVIDUAL_AXIS)((int)that_array[indexes[0]] ^
+                                      zero_bits[0]);
+    this_array[1] = (INDIVIDUAL_AXIS)((int)that_array[indexes[1]] ^
+                                      zero_bits[1]);
   }
 
   // write_back_axis_array converts an array of three INDIVIDUAL_AXIS values
-- 
2.43.0


From 37271774421d3bb267a3824ffc02385cff2df298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 38/65] fix: the center of a segment overflowed for far
 coordinates

The sum of both ends was computed in the coordinate type.
---
 include/boost/polygon/segment_concept.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index e59a1a7..a1222ef 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -247,9 +247,13 @@ typename enable_if<
   >::type,
 typename segment_point_type<Segment>::type>::type
 center(const Segment& segment) {
+  typedef typename segment_coordinate_type<Segment>::type Unit;
+  typedef typename coordinate_traits<Unit>::coordinate_difference diff_type;
   return construct<typename segment_point_type<Segment>::type>(
-      (x(high(segment)) + x(low(segment)))/2,
-      (y(high(segment)) + y(low(segment)))/2);
+      static_cast<Unit>((static_cast<diff_type>(x(high(segment))) +
+                         static_cast<diff_type>(x(low(segment)))) / 2),
+      static_cast<Unit>((static_cast<diff_type>(y(high(segment))) +
+                         static_cast<diff_type>(y(low(segment)))) / 2));
 }
 
 struct y_s_low2 : gtl_yes {};
-- 
2.43.0


From c0b6b7d554dbabbd059d788dd376af220bbfaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 39/65] fix: distances of far points overflowed

The difference was computed in the coordinate type.
---
 include/boost/polygon/point_concept.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index 4d4c1dd..ecededf 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -285,8 +285,9 @@ euclidean_distance(
     const PointType1& point1,
     const PointType2& point2,
     orientation_2d orient) {
-  typename point_difference_type<PointType1>::type dif =
-      get(point1, orient) - get(point2, orient);
+  typedef typename point_difference_type<PointType1>::type Unit;
+  Unit dif = static_cast<Unit>(get(point1, orient)) -
+             static_cast<Unit>(get(point2, orient));
   return (dif < 0) ? -dif : dif;
 }
 
-- 
2.43.0


From ebdfdbad0e9a5c4c50a8f3948e163fe3ad95bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 40/65] fix: area of large Manhattan polygons overflowed

---
 include/boost/polygon/polygon_traits.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e3d1859..5a06022 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -981,8 +981,9 @@ namespace boost { namespace polygon{
 #pragma warning (pop)
 #endif
         // do trapezoid area accumulation
-        area += (x2 - x1) * (((area_type)y(*begin_range) - y_base) +
-                             ((area_type)y(previous) - y_base)) / 2;
+        // halved before multiplying, as the doubled area may not fit
+        area += (x2 - x1) * ((((area_type)y(*begin_range) - y_base) +
+                              ((area_type)y(previous) - y_base)) / 2);
       }
       previous = *begin_range;
       // go to next point
@@ -992,8 +993,8 @@ namespace boost { namespace polygon{
     if(!equivalence(first, previous)) {
       area_type x1 = (area_type)x(previous);
       area_type x2 = (area_type)x(first);
-      area += (x2 - x1) * (((area_type)y(first) - y_base) +
-                           ((area_type)y(previous) - y_base)) / 2;
+      area += (x2 - x1) * ((((area_type)y(first) - y_base) +
+                            ((area_type)y(previous) - y_base)) / 2);
     }
     return area;
   }
-- 
2.43.0


From fd3fb28a09c59ad335b35d2c6cb0cd33655efee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 41/65] fix: postfix increment of compact iterators did not
 compile

---
 include/boost/polygon/detail/iterator_points_to_compact.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/iterator_points_to_compact.hpp b/include/boost/polygon/detail/iterator_points_to_compact.hpp
index 25ddb15..f23bb54 100644
--- a/include/boost/polygon/detail/iterator_points_to_compact.hpp
+++ b/include/boost/polygon/detail/iterator_points_to_compact.hpp
@@ -40,7 +40,7 @@ public:
     return *this;
   }
   inline const iterator_points_to_compact operator++(int) {
-    iT tmp(*this);
+    iterator_points_to_compact tmp(*this);
     ++(*this);
     return tmp;
   }
-- 
2.43.0


From bc8c4f29b5cf628667b1e307852b9e19df28c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 42/65] fix: Euclidean distance of points overflowed when its
 square did not fit

---
 include/boost/polygon/point_concept.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index ecededf..ff56228 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -330,8 +330,12 @@ typename enable_if<
   >::type,
 typename point_distance_type<PointType1>::type>::type
 euclidean_distance(const PointType1& point1, const PointType2& point2) {
-  return (std::sqrt)(
-      static_cast<double>(distance_squared(point1, point2)));
+  // The square of the distance may not fit the difference type.
+  const double dx =
+      static_cast<double>(euclidean_distance(point1, point2, HORIZONTAL));
+  const double dy =
+      static_cast<double>(euclidean_distance(point1, point2, VERTICAL));
+  return (std::sqrt)(dx * dx + dy * dy);
 }
 
 struct y_pt_convolve : gtl_yes {};
-- 
2.43.0


From eb80ebb8bf7de45d6c9f296f4cfa98227ef30d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 43/65] fix: simplify measured to the line, or to an end point,
 when the segment's slope was negative or steep

---
 include/boost/polygon/detail/polygon_simplify.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_simplify.hpp b/include/boost/polygon/detail/polygon_simplify.hpp
index 4871f50..644484f 100644
--- a/include/boost/polygon/detail/polygon_simplify.hpp
+++ b/include/boost/polygon/detail/polygon_simplify.hpp
@@ -77,7 +77,7 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
         // remove this division, the decisions below can be made with
         // just the sign of the quotient and a check to see if
         // abs(numerator) is greater than abs(divisor).
-        ftype f2 = (projx*acx + projy*acx) / ac_ac;
+        ftype f2 = (projx*acx + projy*acy) / ac_ac;
 
         // Square of the relevant distance from point B:
         ftype dist2;
-- 
2.43.0


From d9e76c2d48c13e85834fe5567799f85c61b0c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 44/65] fix: simplify removed any vertex whose two neighbours
 are the same point

---
 include/boost/polygon/detail/polygon_simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_simplify.hpp b/include/boost/polygon/detail/polygon_simplify.hpp
index 644484f..69dadf4 100644
--- a/include/boost/polygon/detail/polygon_simplify.hpp
+++ b/include/boost/polygon/detail/polygon_simplify.hpp
@@ -81,7 +81,8 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
 
         // Square of the relevant distance from point B:
         ftype dist2;
-        if     (f2 < 0) dist2 = ab_ab;
+        if     (ac_ac == 0) dist2 = ab_ab; // A and C are the same point
+        else if(f2 < 0) dist2 = ab_ab;
         else if(f2 > 1) dist2 = bc_bc;
         else            dist2 = perpx*perpx + perpy*perpy;
 
-- 
2.43.0


From 16e92beb77e1bb94e4444714bde5bbafb7fc782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 45/65] fix: simplify measured the first vertex against a
 second vertex it had removed

---
 include/boost/polygon/detail/polygon_simplify.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/polygon/detail/polygon_simplify.hpp b/include/boost/polygon/detail/polygon_simplify.hpp
index 69dadf4..bde28a9 100644
--- a/include/boost/polygon/detail/polygon_simplify.hpp
+++ b/include/boost/polygon/detail/polygon_simplify.hpp
@@ -54,6 +54,11 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
         ftype ax = x(*prev), ay = y(*prev);
         ftype bx = x(*i), by = y(*i);
         ftype cx = x(*next), cy = y(*next);
+        if(i == dst.begin() && !out.empty()) {
+          // vertices after the first one may be gone by now
+          cx = x(out.front());
+          cy = y(out.front());
+        }
 
         // vectors AB, BC and AC:
         ftype abx = bx-ax, aby = by-ay;
-- 
2.43.0


From 96b54db94bb9771802eafc511d1ae162b2454633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 46/65] fix: simplify kept vertices that lie on the segment
 when their projection was rounded

---
 include/boost/polygon/detail/polygon_simplify.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_simplify.hpp b/include/boost/polygon/detail/polygon_simplify.hpp
index bde28a9..07969c8 100644
--- a/include/boost/polygon/detail/polygon_simplify.hpp
+++ b/include/boost/polygon/detail/polygon_simplify.hpp
@@ -75,8 +75,8 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
         ftype projf = ab_ac / ac_ac;
         ftype projx = acx * projf, projy = acy * projf;
 
-        // perpendicular vector from the line AC to point B (i.e. AB - proj)
-        ftype perpx = abx - projx, perpy = aby - projy;
+        // cross product of AC and AB, 0 for a point B on the line AC
+        ftype cross = acx*aby - acy*abx;
 
         // Squared fractional distance of projection. FIXME: can
         // remove this division, the decisions below can be made with
@@ -89,7 +89,7 @@ namespace boost { namespace polygon { namespace detail { namespace simplify_deta
         if     (ac_ac == 0) dist2 = ab_ab; // A and C are the same point
         else if(f2 < 0) dist2 = ab_ab;
         else if(f2 > 1) dist2 = bc_bc;
-        else            dist2 = perpx*perpx + perpy*perpy;
+        else            dist2 = cross*cross / ac_ac;
 
         if(dist2 > len2) {
           prev = i; // bump prev, we didn't remove the segment
-- 
2.43.0


From 01734116fb4f7fdd48318ba1ee00fee17792848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 47/65] fix: property_merge_45 must not mark its unordered
 output edges as clean

The scan emits the edges of one region out of order and in pieces; inserting
them with insert_clean left the set marked sorted and clean, so extracting its
polygons read freed memory.
---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..5b78679 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -89,11 +89,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From b86b6298f7db0daa178fef942b23acea6ca207ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 48/65] fix: merging twice with property_merge_45 must give the
 same result

performMerge accumulated the counts of coincident vertices in the stored
input, which counted them again in the next merge.
---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 5b78679..05bdcd0 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -118,10 +118,10 @@ namespace boost { namespace polygon{
       for(typename MergeSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename MergeSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          tsd_.back().second += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       typename boolean_op_45<Unit>::template Scan45<CountMerge, merge_45_output_functor> scanline;
-- 
2.43.0


From 74a92420fbec65de2c706844fff2ba8d3aa4ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 49/65] fix: extracting twice with connectivity_extraction_45
 must give the same graph

performTouch accumulated the counts of coincident vertices in the stored
input, which counted them again in the next extraction.
---
 include/boost/polygon/detail/polygon_45_touch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 90717e1..6227cf2 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -195,10 +195,10 @@ namespace boost { namespace polygon{
       for(typename TouchSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename TouchSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          tsd_.back().second += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       std::pair<std::pair<Unit, std::map<Unit, std::set<int> > >, graph_type*> output
-- 
2.43.0


From dc9480598bdde85fc4f386f63988d59f12f9b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 50/65] fix: property_merge_90 must clean an inserted set like
 property_merge_45

The raw counts of a set with subtractive inserts cancelled other geometry
inserted with the same property.
---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index b27c13f..2457e19 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -931,6 +931,7 @@ namespace boost { namespace polygon{
     inline property_merge_90(const property_merge_90& that) : pmd_(that.pmd_) {}
     inline property_merge_90& operator=(const property_merge_90& that) { pmd_ = that.pmd_; return *this; }
     inline void insert(const polygon_90_set_data<coordinate_type>& ps, const property_type& property) {
+      ps.clean();
       merge_scanline<coordinate_type, property_type, polygon_90_set_data<coordinate_type> >::
         populate_property_merge_data(pmd_, ps.begin(), ps.end(), property, ps.orient());
     }
-- 
2.43.0


From b7286c67745d02b74567070990daef202535d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 51/65] fix: property_merge_45 must compile for property types
 other than int

The iterator into the counts was declared for int properties.
---
 include/boost/polygon/detail/property_merge_45.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 05bdcd0..536d8fd 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -31,7 +31,7 @@ namespace boost { namespace polygon{
       //inline CountMerge& operator=(int count) { counts[0] = counts[1] = count; return *this; }
       inline CountMerge& operator=(const CountMerge& count) { counts = count.counts; return *this; }
       inline int& operator[](property_type index) {
-        std::vector<std::pair<int, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
+        typename std::vector<std::pair<property_type, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
         if(itr != counts.end() && itr->first == index) {
             return itr->second;
         }
-- 
2.43.0


From 8fa0b918d7d645b0df39936f21f67eba67dd34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 52/65] fix: connectivity_extraction_90 must heed the
 orientation of inserted sets

The edges of sets of either orientation were mixed as if they had the same,
so nodes given as vertical sets were compared with transposed geometry.
---
 include/boost/polygon/polygon_90_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2457e19..cf0e672 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -972,6 +972,8 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      if(ps.orient() != HORIZONTAL) //all nodes have to be oriented the same way
+        return insert(polygon_90_set_data<coordinate_type>(HORIZONTAL, ps));
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From ca345f23fb6ea4a1cfbba77926568ead36bcd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 53/65] fix: is_45 must look at the points of the holes

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 5a06022..bfe8fa3 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1056,7 +1056,7 @@ namespace boost { namespace polygon{
     typename polygon_with_holes_traits<polygon_type>::iterator_holes_type itrh = begin_holes(polygon), itrh_end = end_holes(polygon);
     typedef typename polygon_with_holes_traits<polygon_type>::hole_type hole_type;
     for(; itrh != itrh_end; ++ itrh) {
-      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(polygon), itr1_end = end_points(polygon);
+      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(*itrh), itr1_end = end_points(*itrh);
       if(!point_sequence_is_45(itr1, itr1_end)) return false;
     }
     return true;
-- 
2.43.0


From bfda379ab2320d04633f50c6a271b00c8633553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 54/65] fix: is_45 must not overflow on the difference of two
 coordinates

---
 include/boost/polygon/polygon_traits.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index bfe8fa3..4dfb6f8 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1025,23 +1025,23 @@ namespace boost { namespace polygon{
   template <typename iT>
   bool point_sequence_is_45(iT itr, iT itr_end) {
     typedef typename std::iterator_traits<iT>::value_type Point;
-    typedef typename point_traits<Point>::coordinate_type Unit;
+    typedef typename point_difference_type<Point>::type Unit;
     if(itr == itr_end) return true;
     Point firstPt = *itr;
     Point prevPt = firstPt;
     ++itr;
     while(itr != itr_end) {
       Point pt = *itr;
-      Unit deltax = x(pt) - x(prevPt);
-      Unit deltay = y(pt) - y(prevPt);
+      Unit deltax = (Unit)x(pt) - (Unit)x(prevPt);
+      Unit deltay = (Unit)y(pt) - (Unit)y(prevPt);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay))
         return false;
       prevPt = pt;
       ++itr;
     }
-    Unit deltax = x(firstPt) - x(prevPt);
-    Unit deltay = y(firstPt) - y(prevPt);
+    Unit deltax = (Unit)x(firstPt) - (Unit)x(prevPt);
+    Unit deltay = (Unit)y(firstPt) - (Unit)y(prevPt);
     if(deltax && deltay &&
        local_abs(deltax) != local_abs(deltay))
       return false;
-- 
2.43.0


From 16d84b87edceae1582861f84dd8f4bf41dfc04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 55/65] fix: polygon_45_set_data must be insertable into itself

---
 include/boost/polygon/polygon_45_set_data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index b4b81dd..8ff45a2 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -580,6 +580,12 @@ namespace boost { namespace polygon{
   // insert polygon set
   template <typename Unit>
   inline void polygon_45_set_data<Unit>::insert(const polygon_45_set_data<Unit>& polygon_set, bool is_hole) {
+    if(&polygon_set == this) {
+      //a vector's own range may not be inserted into it
+      polygon_45_set_data<Unit> tmp(polygon_set);
+      insert(tmp, is_hole);
+      return;
+    }
     std::size_t count = data_.size();
     data_.insert(data_.end(), polygon_set.data_.begin(), polygon_set.data_.end());
     error_data_.insert(error_data_.end(), polygon_set.error_data_.begin(),
-- 
2.43.0


From 152f10646df1361281cf25ae8f7970726a785369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 56/65] fix: direction_3d::backward must not go through
 direction_2d

---
 include/boost/polygon/isotropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/isotropy.hpp b/include/boost/polygon/isotropy.hpp
index c49c9ee..98ddbaa 100644
--- a/include/boost/polygon/isotropy.hpp
+++ b/include/boost/polygon/isotropy.hpp
@@ -511,7 +511,7 @@ namespace boost { namespace polygon{
 
     inline direction_3d backward() const {
       // flip the LSB, toggles 0 - 1   and 2 - 3 and 4 - 5
-      return direction_2d(direction_2d_enum(val_ ^ 1));
+      return direction_3d(direction_3d_enum(val_ ^ 1));
     }
 
     // N, E, U are positive, S, W, D are negative
-- 
2.43.0


From 2d4db157c858d3bab6cc5a7ca85538672a993f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 57/65] fix: extended_int must not negate the lowest int32 as a
 signed value

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index f55f513..80452ae 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -234,7 +234,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0u - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
@@ -275,7 +275,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0u - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
-- 
2.43.0


From 3c8f0565eb82c8308c5ee41ac2f7bb381137c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 58/65] fix: resizing a polygon_45_set must not fill a corner
 at a collinear vertex

---
 include/boost/polygon/polygon_45_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 8ff45a2..a2c965e 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1031,6 +1031,7 @@ namespace boost { namespace polygon{
                               int multiplier) {
     unsigned int edge1 = getEdge45Direction(first, second);
     unsigned int edge2 = getEdge45Direction(second, third);
+    if(edge1 == edge2) return; //no corner to fill, the edges' lines have no single intersection
     unsigned int diffAngle;
     if(multiplier < 0)
       diffAngle = (edge2 + 8 - edge1) % 8;
-- 
2.43.0


From fa6c0c7da8d912934c65d3d7cdb8e032507b743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 59/65] fix: resizing a polygon_45_set must not narrow the
 bloated edges to int

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index a2c965e..5256852 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -962,11 +962,11 @@ namespace boost { namespace polygon{
   void handleResizingEdge45(polygon_45_set_data<Unit>& sizingSet, point_data<Unit> first,
                             point_data<Unit> second, Unit resizing, RoundingOption rounding) {
     if(first.x() == second.x()) {
-      sizingSet.insert(rectangle_data<int>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
+      sizingSet.insert(rectangle_data<Unit>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
       return;
     }
     if(first.y() == second.y()) {
-      sizingSet.insert(rectangle_data<int>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
+      sizingSet.insert(rectangle_data<Unit>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
       return;
     }
     //edge is 45
-- 
2.43.0


From fe4c5a440134fe786e73cfb76e95f7d5684fde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 60/65] fix: snap_to_45 must not overflow on the difference of
 two coordinates

---
 include/boost/polygon/polygon_traits.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 4dfb6f8..9b5db45 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -744,6 +744,7 @@ namespace boost { namespace polygon{
   template <typename Unit>
   void snap_point_vector_to_45(std::vector<point_data<Unit> >& pts) {
     typedef point_data<Unit> Point;
+    typedef typename point_difference_type<Point>::type Difference;
     if(pts.size() < 3) { pts.clear(); return; }
     typename std::vector<point_data<Unit> >::iterator endLocation = std::unique(pts.begin(), pts.end());
     if(endLocation != pts.end()){
@@ -758,16 +759,16 @@ namespace boost { namespace polygon{
       Point& pt2 = pts[(i + 1) % numPts];
       Point& pt3 = pts[(i + 2) % numPts];
       //check if non-45 edge
-      Unit deltax = x(pt2) - x(pt1);
-      Unit deltay = y(pt2) - y(pt1);
+      Difference deltax = (Difference)x(pt2) - (Difference)x(pt1);
+      Difference deltay = (Difference)y(pt2) - (Difference)y(pt1);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay)) {
         //adjust the middle point
-        Unit ndx = x(pt3) - x(pt2);
-        Unit ndy = y(pt3) - y(pt2);
+        Difference ndx = (Difference)x(pt3) - (Difference)x(pt2);
+        Difference ndy = (Difference)y(pt3) - (Difference)y(pt2);
         if(ndx && ndy) {
-          Unit diff = local_abs(local_abs(deltax) - local_abs(deltay));
-          Unit halfdiff = diff/2;
+          Difference diff = local_abs(local_abs(deltax) - local_abs(deltay));
+          Difference halfdiff = diff/2;
           if((deltax > 0 && deltay > 0) ||
              (deltax < 0 && deltay < 0)) {
             //previous edge is rising slope
@@ -806,13 +807,13 @@ namespace boost { namespace polygon{
         } else if(ndx) {
           //next edge is horizontal
           //find the x value for pt1 that would make the abs(deltax) == abs(deltay)
-          Unit newDeltaX = local_abs(deltay);
+          Difference newDeltaX = local_abs(deltay);
           if(deltax < 0) newDeltaX *= -1;
           x(pt2, x(pt1) + newDeltaX);
         } else { //ndy
           //next edge is vertical
           //find the y value for pt1 that would make the abs(deltax) == abs(deltay)
-          Unit newDeltaY = local_abs(deltax);
+          Difference newDeltaY = local_abs(deltax);
           if(deltay < 0) newDeltaY *= -1;
           y(pt2, y(pt1) + newDeltaY);
         }
-- 
2.43.0


From c72732def552d28691900d220a8ba51c111412d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 61/65] fix: bloat, shrink, grow_and and move of Manhattan sets
 outside namespace boost::polygon

---
 .../boost/polygon/polygon_90_set_concept.hpp  | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 5259a07..911a38e 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -204,6 +204,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  bloat(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -264,6 +273,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  shrink(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_shrinking);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -350,6 +368,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type,
+                       polygon_set_type>::type &
+  grow_and(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -461,6 +488,14 @@ namespace boost { namespace polygon{
 
   struct y_p_s_move : gtl_yes {};
 
+  struct y_p_s_move2 : gtl_yes {};
+
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_and<y_p_s_move2, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
+                      polygon_set_type>::type &
+  move(polygon_set_type& polygon_set, typename polygon_90_set_traits<polygon_set_type>::coordinate_type x_displacement,
+  typename polygon_90_set_traits<polygon_set_type>::coordinate_type y_displacement);
+
   //move
   template <typename polygon_set_type>
   typename enable_if< typename gtl_and<y_p_s_move, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
@@ -473,8 +508,6 @@ namespace boost { namespace polygon{
       return move(polygon_set, 0, displacement);
   }
 
-  struct y_p_s_move2 : gtl_yes {};
-
   template <typename polygon_set_type>
   typename enable_if< typename gtl_and<y_p_s_move2, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
                       polygon_set_type>::type &
-- 
2.43.0


From 4516c07e92b3f05f88db2ea87194582d929a38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 62/65] fix: interact of containers and user-defined Manhattan
 sets

---
 include/boost/polygon/polygon_90_set_concept.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 911a38e..3d0ff89 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -171,8 +171,8 @@ namespace boost { namespace polygon{
     typedef typename polygon_90_set_traits<polygon_set_type_1>::coordinate_type Unit;
     polygon_90_set_data<Unit> ps(scanline_orientation(polygon_set_2));
     polygon_90_set_data<Unit> ps2(ps);
-    ps.insert(polygon_set_1);
-    ps2.insert(polygon_set_2);
+    ps.insert(begin_90_set_data(polygon_set_1), end_90_set_data(polygon_set_1), scanline_orientation(polygon_set_1));
+    ps2.insert(begin_90_set_data(polygon_set_2), end_90_set_data(polygon_set_2), scanline_orientation(polygon_set_2));
     ps.interact(ps2);
     assign(polygon_set_1, ps);
     return polygon_set_1;
-- 
2.43.0


From 838a289da7e16df47861749bd4ddf81e6689cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 63/65] fix: scale, scale_down and snap_to_45 of 45-degree
 polygons of user-defined points

---
 include/boost/polygon/polygon_traits.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 9b5db45..b5f972a 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -824,11 +824,11 @@ namespace boost { namespace polygon{
   template <typename polygon_type>
   typename enable_if< typename is_any_mutable_polygon_without_holes_type<polygon_type>::type, polygon_type>::type &
   snap_to_45(polygon_type& polygon) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
     }
     snap_point_vector_to_45(points);
     polygon_mutable_traits<polygon_type>::set_points(polygon, points.begin(), points.end());
@@ -863,11 +863,11 @@ namespace boost { namespace polygon{
                         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type,
     polygon_type>::type &
   scale_down(polygon_type& polygon, typename coordinate_traits<typename polygon_traits<polygon_type>::coordinate_type>::unsigned_area_type factor) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
       scale_down(points.back(), factor);
     }
     snap_point_vector_to_45(points);
@@ -924,11 +924,11 @@ namespace boost { namespace polygon{
                       < forty_five_domain,
         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type>::type * = 0
   ) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
       scale(points.back(), anisotropic_scale_factor<double>(factor, factor));
     }
     snap_point_vector_to_45(points);
-- 
2.43.0


From 19168610f4b7602d9cca4267217ae850f172b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 64/65] fix: contains of polygons with holes outside namespace
 boost::polygon

---
 include/boost/polygon/polygon_traits.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index b5f972a..4572c85 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1290,6 +1290,15 @@ namespace boost { namespace polygon{
     }
   };
 
+  template <typename T, typename input_point_type>
+  typename enable_if<
+    typename gtl_and_3<
+      typename is_polygon_type<T>::type,
+      typename gtl_different_type<typename geometry_domain<typename geometry_concept<T>::type>::type, manhattan_domain>::type,
+      typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
+    bool>::type
+  contains(const T& polygon, const input_point_type& point, bool consider_touch = true);
+
   template <typename T, typename input_point_type>
   typename enable_if<
     typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T>::type,
@@ -1318,7 +1327,7 @@ namespace boost { namespace polygon{
       typename gtl_different_type<typename geometry_domain<typename geometry_concept<T>::type>::type, manhattan_domain>::type,
       typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
     bool>::type
-  contains(const T& polygon, const input_point_type& point, bool consider_touch = true) {
+  contains(const T& polygon, const input_point_type& point, bool consider_touch) {
     typedef typename point_traits<input_point_type>::coordinate_type Unit;
     typedef point_data<Unit> Point;
     typedef std::pair<Point, Point> half_edge;
-- 
2.43.0


From abca87338582897aa215c902e27619d7dd7d7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 65/65] fix: holes of user-defined types in set_holes of the
 polygon with holes data types

---
 .../polygon/polygon_45_with_holes_data.hpp    | 20 ++++++++++++++++++-
 .../polygon/polygon_90_with_holes_data.hpp    | 20 ++++++++++++++++++-
 .../boost/polygon/polygon_with_holes_data.hpp | 20 ++++++++++++++++++-
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_with_holes_data.hpp b/include/boost/polygon/polygon_45_with_holes_data.hpp
index 0601bdc..c8ed75e 100644
--- a/include/boost/polygon/polygon_45_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_45_with_holes_data.hpp
@@ -11,6 +11,9 @@
 #include "polygon_45_data.hpp"
 namespace boost { namespace polygon{
 struct polygon_45_with_holes_concept;
+  template <typename T>
+  struct is_polygon_45_type;
+
 template <typename T>
 class polygon_45_with_holes_data {
 public:
@@ -49,7 +52,7 @@ public:
     holes_.clear();  //just in case there was some old data there
     for( ; input_begin != input_end; ++ input_begin) {
        holes_.push_back(hole_type());
-       holes_.back().set((*input_begin).begin(), (*input_begin).end());
+       set_hole(holes_.back(), *input_begin);
     }
     return *this;
   }
@@ -96,6 +99,21 @@ public:
     return holes_.size();
   }
 
+private:
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole) {
+    set_hole(lvalue, hole, typename is_polygon_45_type<hole_input_type>::type());
+  }
+  // a hole that models the concept is read through its traits
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_yes) {
+    lvalue = hole;
+  }
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_no) {
+    lvalue.set(hole.begin(), hole.end());
+  }
+
 public:
   polygon_45_data<coordinate_type> self_;
   std::list<hole_type> holes_;
diff --git a/include/boost/polygon/polygon_90_with_holes_data.hpp b/include/boost/polygon/polygon_90_with_holes_data.hpp
index be43b65..e30c3c5 100644
--- a/include/boost/polygon/polygon_90_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_90_with_holes_data.hpp
@@ -11,6 +11,9 @@ namespace boost { namespace polygon{
 #include "isotropy.hpp"
 #include "polygon_90_data.hpp"
 struct polygon_90_with_holes_concept;
+  template <typename T>
+  struct is_polygon_90_type;
+
 template <typename T>
 class polygon_90_with_holes_data {
 public:
@@ -49,7 +52,7 @@ public:
     holes_.clear();  //just in case there was some old data there
     for( ; input_begin != input_end; ++ input_begin) {
        holes_.push_back(hole_type());
-       holes_.back().set_compact((*input_begin).begin_compact(), (*input_begin).end_compact());
+       set_hole(holes_.back(), *input_begin);
     }
     return *this;
   }
@@ -106,6 +109,21 @@ public:
     return holes_.size();
   }
 
+private:
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole) {
+    set_hole(lvalue, hole, typename is_polygon_90_type<hole_input_type>::type());
+  }
+  // a hole that models the concept is read through its traits
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_yes) {
+    lvalue = hole;
+  }
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_no) {
+    lvalue.set_compact(hole.begin_compact(), hole.end_compact());
+  }
+
 private:
   polygon_90_data<coordinate_type> self_;
   std::list<hole_type> holes_;
diff --git a/include/boost/polygon/polygon_with_holes_data.hpp b/include/boost/polygon/polygon_with_holes_data.hpp
index a1a0e1d..c66e633 100644
--- a/include/boost/polygon/polygon_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_with_holes_data.hpp
@@ -11,6 +11,9 @@
 #include "polygon_data.hpp"
 namespace boost { namespace polygon{
   struct polygon_with_holes_concept;
+  template <typename T>
+  struct is_polygon_type;
+
   template <typename T>
   class polygon_with_holes_data {
 public:
@@ -49,7 +52,7 @@ public:
     holes_.clear();  //just in case there was some old data there
     for( ; input_begin != input_end; ++ input_begin) {
        holes_.push_back(hole_type());
-       holes_.back().set((*input_begin).begin(), (*input_begin).end());
+       set_hole(holes_.back(), *input_begin);
     }
     return *this;
   }
@@ -96,6 +99,21 @@ public:
     return holes_.size();
   }
 
+private:
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole) {
+    set_hole(lvalue, hole, typename is_polygon_type<hole_input_type>::type());
+  }
+  // a hole that models the concept is read through its traits
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_yes) {
+    lvalue = hole;
+  }
+  template <typename hole_input_type>
+  static void set_hole(hole_type& lvalue, const hole_input_type& hole, gtl_no) {
+    lvalue.set(hole.begin(), hole.end());
+  }
+
 public:
   polygon_data<coordinate_type> self_;
   std::list<hole_type> holes_;
-- 
2.43.0

