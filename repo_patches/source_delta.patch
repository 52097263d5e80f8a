From 750145db9d975069821d00024722330d16c4ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:35 +0000
Subject: [PATCH 01/28] fix: accept non-positive priority weights in one-point
 seed initialisation

The search for the best initial cell started from the smallest positive
weight, so that with weights all zero or negative no cell was selected and
an invalid index was queued.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From a3aadb16230e5265e083c9ccce71e997ba17b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:33 +0000
Subject: [PATCH 02/28] fix: move every fine cell of a corrected multi-cell
 singular coarse cell

When a singular coarse cell with several fine cells was dissolved cell by
cell, fine cells without an isotropic neighbour of their own were left with
the ID of the erased coarse cell. Such cells now follow the already moved
ones.
---
 include/CoMMA/Coarse_Cell_Container.h | 44 +++++++++++++++++++--------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..816d050 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,21 +202,41 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
-          for (const auto &[i_fc, neighs] : neighs_by_fc) {
-            if (!neighs.empty()) {
-              std::optional<CoMMAIntType> new_compactness = std::nullopt;
-              const auto new_cc = select_best_cc_to_agglomerate(
-                i_fc, neighs, max_card, new_compactness
-              );
-              if (new_cc.has_value()) {
-                _fc_2_cc[i_fc] = new_cc.value();
-                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
-                should_remove = true;
-              }
-            }
+          const auto move_fc = [&](
+                                 const CoMMAIndexType i_fc,
+                                 const std::set<CoMMAIndexType> &neighs
+                               ) -> bool {
             // If the cell has no neighbour (this could happen when the
             // partitioning does not give a connected partition), unfortunately,
             // there is nothing that we can do. We just skip it
+            if (neighs.empty()) return false;
+            std::optional<CoMMAIntType> new_compactness = std::nullopt;
+            const auto new_cc = select_best_cc_to_agglomerate(
+              i_fc, neighs, max_card, new_compactness
+            );
+            if (!new_cc.has_value()) return false;
+            _fc_2_cc[i_fc] = new_cc.value();
+            _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
+            should_remove = true;
+            return true;
+          };
+          std::deque<CoMMAIndexType> left_fcs{};
+          for (const auto &[i_fc, neighs] : neighs_by_fc) {
+            if (!move_fc(i_fc, neighs)) left_fcs.push_back(i_fc);
+          }
+          // Fine cells which only touch cells of the same coarse cell can be
+          // moved once those have been
+          bool moved = should_remove;
+          while (moved && !left_fcs.empty()) {
+            moved = false;
+            for (auto it = left_fcs.begin(); it != left_fcs.end();) {
+              if (move_fc(*it, get_neighs_cc(*it, old_cc))) {
+                it = left_fcs.erase(it);
+                moved = true;
+              } else {
+                ++it;
+              }
+            }
           }
         }
 
-- 
2.43.0


From 6913e99fa0215eb2fd27ca7460eae54a0d4c7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:16 +0000
Subject: [PATCH 03/28] fix: do not look for the largest weight of a cell
 without neighbours

With a negative anisotropy threshold an isolated compliant cell dereferenced
the end of an empty weight range.
---
 include/CoMMA/Dual_Graph.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..187abcb 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,11 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // An isolated cell has no weight at all
+            if (this->get_nb_of_neighbours(i_fc) > 0)
+              max_weights[i_fc] = *(max_element(
+                this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+              ));
           }
           break;
         }
-- 
2.43.0


From 9bb059e68c91704339f45a2d445770de15da9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:09 +0000
Subject: [PATCH 04/28] fix: respect line end and maximum number of cells when
 pairing line cells

With a maximum number of cells in line, a line whose last two cells left room
for exactly one more cell was read beyond its end, and a line ending with
three cells could exceed the maximum.
---
 include/CoMMA/Agglomerator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..85cf1ab 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,15 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
+          const auto n_left = std::distance(line_it, end);
           if (
-            std::distance(line_it, end) == 3
+            n_left == 3
             || (
-              this->_max_cells_in_line.has_value()
+              n_left > 3 && this->_max_cells_in_line.has_value()
               && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells < this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From daea8cebd13868cad3d194ab0d80ea3a46ecefab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:21 +0000
Subject: [PATCH 05/28] fix: restart neighbourhood-priority seeding from the
 highest unfinished level

When no neighbour was left, the search for the level to restart from stopped
at the first cell reaching the current level instead of looking for the
highest one, so the seed depended on the cell numbering.
---
 include/CoMMA/Seeds_Pool.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index be7ef40..db365d3 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -667,9 +667,8 @@ public:
       }
 
       // If not found, see which is the highest unfinished level
-      const auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
-        is_agglomerated, this->_cur_top_queue.value()
-      );
+      const auto opt_top =
+        this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
       if (opt_top.has_value()) {
         const auto cur_queue = opt_top.value();
         this->_cur_top_queue = cur_queue;
-- 
2.43.0


From 4f7efd5defa3695ec8939aedcebe52c3e04e090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:15 +0000
Subject: [PATCH 06/28] fix: divide by the coarse volume when averaging centers
 of the coarse graph

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..3600ab6 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
+    const RealT ov_vol(RealT{1.} / c_volumes[cc]);
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_vol;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::min();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From 1c194d363d5ee45bc0908ed80e5ac77382e4b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:30 +0000
Subject: [PATCH 07/28] fix: accept non-positive priorities when building the
 coarse graph

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 3600ab6..e426b3d 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_vol;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From 241ba9d9475d0755fedd8f471d1a275fad642dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:50 +0000
Subject: [PATCH 08/28] fix: use the weight of the edge when building the
 coarse graph

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index e426b3d..ce3224b 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From 55561d58303d318e3954e15944447b5dc3324284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:06 +0000
Subject: [PATCH 09/28] fix: divide by the total measure when averaging centers
 for the barycenter

---
 include/CoMMA/ARComputer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..3b34152 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -275,10 +275,13 @@ protected:
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    RealT sum_volumes = this->_graph->_volumes[i_fc];
+    for (const auto i_fc_cc : fc_of_cc)
+      sum_volumes += this->_graph->_volumes[i_fc_cc];
+    const RealT ov_vol = 1. / sum_volumes;
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] * ov_vol;
     }
     return bary;
   }
-- 
2.43.0


From 08cbb575e945932c0c31a2871bf924dbd536f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:42 +0000
Subject: [PATCH 10/28] fix: ignore non-positive numbers of edges when
 filtering cells

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index ce3224b..a191826 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From d40f7d4422cd9fc7f46c5497e8da37f5d293eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:11 +0000
Subject: [PATCH 11/28] fix: restart the visit each time the connectivity of a
 graph is checked

---
 include/CoMMA/Dual_Graph.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 187abcb..08e1285 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,12 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    // Start afresh, the graph may have already been visited or edited
+    _visited.assign(_number_of_cells, false);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
-- 
2.43.0


From aadd483a7fac07077006aef076f6ecbb7fc3d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:11 +0000
Subject: [PATCH 12/28] fix: keep row pointers, weights and size right when
 inserting a node in a subgraph

---
 include/CoMMA/Dual_Graph.h | 43 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 08e1285..44bced4 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -354,14 +354,7 @@ public:
     _cardinality(static_cast<CoMMAIntType>(nb_c)),
     _mapping_l_to_g(mapping_l_to_g) {
     // Compactness computation
-    _compactness = static_cast<CoMMAIntType>(nb_c);
-    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
-      const auto n_neighs =
-        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
-      if (n_neighs < _compactness) {
-        _compactness = n_neighs;
-      }
-    }
+    update_after_edit();
   }
 
   /** @brief Destructor of the class */
@@ -403,21 +396,21 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    // and weights of the faces shared with those neighbours
+    ContainerWeightType l_weight{};
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
-    for (const auto &elem : v_neigh) {
+    for (auto i = decltype(v_neigh.size()){0}; i < v_neigh.size(); ++i) {
       const auto low1 =
-        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
+        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), v_neigh[i]);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        l_weight.push_back(weight[i]);
       }
     }
     // variable to add weight for each face
     CoMMAIntType iter_weight = 0;
     CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
-    // initialization pointers for insertion, pointing to the first element of
-    // each
-    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
 
     // cycle on the set of neighbours
     for (const auto &elem : v_l_neigh) {
@@ -430,11 +423,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -442,14 +435,15 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Col_Ind.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    update_after_edit();
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
@@ -531,6 +525,21 @@ public:
       actual = internal_mapping[actual].value();
     }
   }
+
+protected:
+  /** @brief Set number of nodes, cardinality and compactness according to the
+   * current CRS representation
+   */
+  void update_after_edit() {
+    this->_number_of_cells = this->_m_CRS_Row_Ptr.size() - 1;
+    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
+    _compactness = _cardinality;
+    for (auto c = decltype(this->_number_of_cells){0};
+         c < this->_number_of_cells;
+         ++c) {
+      _compactness = std::min(_compactness, this->get_nb_of_neighbours(c));
+    }
+  }
 };
 
 /** @brief A class implementing the CRS global graph representation of the
-- 
2.43.0


From a9652f846a99434887b26c7aa12901eb15321f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:11 +0000
Subject: [PATCH 13/28] fix: erase exactly the edges of the removed node from a
 subgraph

---
 include/CoMMA/Dual_Graph.h | 62 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 44bced4..dd885cd 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -458,44 +458,39 @@ public:
     // Getting neighbours, store them before erasing
     ContainerIndexType v_neigh = this->get_neighbours(i_fc);
 
-    // weight iterator for erasing in the weight vector
-    auto pos_col = this->_m_CRS_Col_Ind.begin();
-    auto pos_Values = this->_m_CRS_Values.begin();
+    // Erase from column index and weights the entries [first, last), which
+    // belong to the given row, and shift the offsets of the following rows
+    const auto erase_entries = [this](
+                                 const CoMMAIndexType row,
+                                 const CoMMAIndexType first,
+                                 const CoMMAIndexType last
+                               ) {
+      this->_m_CRS_Col_Ind.erase(
+        this->_m_CRS_Col_Ind.begin() + first, this->_m_CRS_Col_Ind.begin() + last
+      );
+      this->_m_CRS_Values.erase(
+        this->_m_CRS_Values.begin() + first, this->_m_CRS_Values.begin() + last
+      );
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + row + 1;
+           it != this->_m_CRS_Row_Ptr.end();
+           ++it) {
+        *it -= last - first;
+      }
+    };
     for (const auto &elem : v_neigh) {
-      CoMMAIndexType ind = this->_m_CRS_Row_Ptr[elem];
-      CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[elem + 1];
-      // Constant to keep track and erase the weight
-      for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-        if (*it == i_fc) {
-          this->_m_CRS_Col_Ind.erase(it);
-          // define the exact position of the element for the processing of the
-          // weight later.
-          this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-          // for each found i decrease the successive of 1 for the offset
-          for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
-               it_bis != this->_m_CRS_Row_Ptr.end();
-               ++it_bis) {
-            *it_bis = *it_bis - 1;
-          }
+      for (auto pos = this->_m_CRS_Row_Ptr[elem];
+           pos < this->_m_CRS_Row_Ptr[elem + 1];) {
+        if (this->_m_CRS_Col_Ind[pos] == i_fc) {
+          erase_entries(elem, pos, pos + 1);
+        } else {
+          ++pos;
         }
       }
     }
-    // reduce the row ptr value of the deleted value
     // do the same with i_fc
-    CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
-    CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
-      }
-    }
+    erase_entries(
+      i_fc, this->_m_CRS_Row_Ptr[i_fc], this->_m_CRS_Row_Ptr[i_fc + 1]
+    );
     // Get rid of the col element
     auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
     // Modify the mapping
@@ -524,6 +519,7 @@ public:
       assert(internal_mapping[actual].has_value());
       actual = internal_mapping[actual].value();
     }
+    update_after_edit();
   }
 
 protected:
-- 
2.43.0


From 96f9fd291df3e5244c7da4fe17546b0cf13e5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:12 +0000
Subject: [PATCH 14/28] fix: update the number of coarse cells after a
 correction

---
 include/CoMMA/Coarse_Cell_Container.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 816d050..0dffd43 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -249,6 +249,7 @@ Not used anymore but we leave it for example purposes
 
     // Now update the ID if necessary
     if (!removed_cc.empty()) {
+      _cc_counter -= removed_cc.size();
       auto new_ID = *(removed_cc.begin());
       // Starting from the CC just after the first removed singular cell, update
       // all cells. Looking for new_ID-1 than doing ++ avoid case of consecutive
-- 
2.43.0


From 3a780442c5b8a4f754a006e397181421129a4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:12 +0000
Subject: [PATCH 15/28] fix: search an empty list of sons without dereferencing
 it

---
 include/CoMMA/deprecated/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 02c00b9..09bc188 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -119,12 +119,12 @@ public:
   std::shared_ptr<NodeType> search(
     std::shared_ptr<NodeType> &node, const CoMMAIndexType &value
   ) {
+    if (node == nullptr) {
+      return nullptr;
+    }
     if (node->_index == value && node->_father != nullptr) {
       return node;
     }
-    if (node == nullptr || node->_right_idx == nullptr) {
-      return nullptr;
-    }
     return (search(node->_right_idx, value));
   }
 
-- 
2.43.0


From 16679be07cd7d43850e9c3419b9a74b4f7a9af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:12 +0000
Subject: [PATCH 16/28] fix: relink brothers properly when deleting a node of a
 tree

---
 include/CoMMA/deprecated/Tree.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 09bc188..f8729c5 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -157,20 +157,17 @@ public:
       return;
     }
     if (searched_node->_index == value) {
-      // case 0: leftest node
-      if (searched_node->_left_idx == nullptr) {
-        searched_node->_father->_sonc--;
-        searched_node->_father->_left_son_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = nullptr;
+      // Copy, since the argument is one of the links modified below
+      const auto node = searched_node;
+      node->_father->_sonc--;
+      if (node->_right_idx != nullptr) {
+        node->_right_idx->_left_idx = node->_left_idx;
       }
-      // case 1: rightest node
-      else if (searched_node->_right_idx == nullptr) {
-        searched_node->_father->_sonc = searched_node->_father->_sonc - 1;
-        searched_node->_left_idx->_right_idx.reset();
+      // case 0: leftest node
+      if (node->_left_idx == nullptr) {
+        node->_father->_left_son_idx = node->_right_idx;
       } else {
-        searched_node->_father->_sonc--;
-        searched_node->_left_idx->_right_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = searched_node->_left_idx;
+        node->_left_idx->_right_idx = node->_right_idx;
       }
       return;
     }
-- 
2.43.0


From 6f721ed540eae92b7c1dc3d31635aaf1c0bd760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 17/28] fix: compute the wall distance of graphs with isolated
 cells in the Python tools

---
 examples/scripts/comma_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/scripts/comma_tools.py b/examples/scripts/comma_tools.py
index ac36448..5ff12df 100644
--- a/examples/scripts/comma_tools.py
+++ b/examples/scripts/comma_tools.py
@@ -109,9 +109,7 @@ def compute_neighbourhood_wall_distance(
         # Actually, in the end its always the first...
         cur = to_visit.pop(0)
         next_tag = dist[cur] + 1
-        for neigh in np.nditer(
-            neighs[neigh_idxs[cur] : neigh_idxs[cur + 1]], op_flags=["readonly"]
-        ):
+        for neigh in neighs[neigh_idxs[cur] : neigh_idxs[cur + 1]]:
             if dist[neigh] < 0:
                 # Not visited: set dist and add it to queue
                 dist[neigh] = next_tag
-- 
2.43.0


From 8939cb8bc40ab7753e019f977327bd9b95105173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 18/28] fix: use the weight of the edge when building the
 coarse graph in the Python tools

---
 examples/scripts/comma_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/scripts/comma_tools.py b/examples/scripts/comma_tools.py
index 5ff12df..05e38d0 100644
--- a/examples/scripts/comma_tools.py
+++ b/examples/scripts/comma_tools.py
@@ -269,14 +269,15 @@ def build_coarse_graph(
         # for every (previous) fine cell composing the current coarse cell...
         for fc in fcs:
             # ...loop over its neighbours
-            for neigh_fc in CSR_col[CSR_row[fc] : CSR_row[fc + 1]]:
+            for edge in range(CSR_row[fc], CSR_row[fc + 1]):
+                neigh_fc = CSR_col[edge]
                 # ...and if they are not in the same coarse cell...
                 if neigh_fc not in fcs:
                     # ...update the interface with the coarse cell to which the
                     # neighbours belongs
                     neigh_cc = fc2cc[neigh_fc]
                     neighs_cc[neigh_cc] = (
-                        neighs_cc.get(neigh_cc, 0.0) + CSR_val[neigh_fc]
+                        neighs_cc.get(neigh_cc, 0.0) + CSR_val[edge]
                     )
         coarse_CSR_col.extend(neighs_cc.keys())
         coarse_CSR_val.extend(neighs_cc.values())
-- 
2.43.0


From d6fed0a66edf834197df34281f9f0a77352d0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 19/28] fix: give negative IDs to all lines when the default
 value is positive

---
 examples/scripts/comma_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/scripts/comma_tools.py b/examples/scripts/comma_tools.py
index 05e38d0..0bbbf1f 100644
--- a/examples/scripts/comma_tools.py
+++ b/examples/scripts/comma_tools.py
@@ -385,7 +385,7 @@ def assign_anisotropic_line_data_to_cells(
     if default_value == 0:
         lines += 1
     elif default_value > 0:
-        lines = -lines
+        lines = -lines - 1
     for ln in range(n_lines):
         # With the following commented definitions, the actual code would me more
         # readable:
-- 
2.43.0


From c1580550eef3237eb9035ddbc92d5e184d765eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 20/28] fix: do not modify the data given to prepare
 agglomeration data

---
 examples/scripts/comma_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/scripts/comma_tools.py b/examples/scripts/comma_tools.py
index 0bbbf1f..a87456b 100644
--- a/examples/scripts/comma_tools.py
+++ b/examples/scripts/comma_tools.py
@@ -328,7 +328,7 @@ def prepare_meshio_agglomeration_data(
     shuffle: bool, default: False
         Whether to shuffle the data before exporting.
     """
-    final_data = np.asarray(data)
+    final_data = np.array(data)
     if shuffle:
         n_cells = final_data.max() + 1
         new_data = np.arange(n_cells)
-- 
2.43.0


From c13749a5ad0586abcbec1e492297c25e0f16b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 21/28] fix: compare the aspect-ratio of the foreseen cells
 when looking ahead

---
 include/CoMMA/Agglomerator.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 85cf1ab..8b46de1 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1729,6 +1729,18 @@ public:
           cur_max_faces_in_common,
           cur_min_ar_cc_feats
         );
+        if (cur_max_faces_in_common > 0) {
+          // Aspect-ratio of the cell obtained with the best child
+          CoMMAIntType child_faces{0};
+          this->_ar_computer->compute_and_update_features(
+            cur_argmin,
+            inner_min_ar_cc_feats,
+            cur_fc,
+            child_faces,
+            cur_min_ar,
+            cur_min_ar_cc_feats
+          );
+        }
         // We just keep the min AR and the max faces in common
         if (cur_max_faces_in_common > inner_max_faces_in_common) {
           inner_max_faces_in_common = cur_max_faces_in_common;
-- 
2.43.0


From f997341df2edb7a6d2d7114a293a3173d40b94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 22/28] fix: keep only hexahedra when asked to while tagging
 anisotropic cells

---
 include/CoMMA/Dual_Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index dd885cd..cec1a09 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -834,6 +834,7 @@ public:
               if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                   || nb_neighbours == 6)
                 aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
+              break;
             case 0:
             default:
               // If the ratio is more than the given threshold of the biggest
-- 
2.43.0


From a6cc10b0dd134665390dae76e7e026154c6f07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:54 +0000
Subject: [PATCH 23/28] fix: do not compare a diameter with a ratio of lengths
 when looking ahead

With the diameter over minimum edge, the value of a coarse cell of two cells
is a squared diameter. Comparing it with the ratio of a larger coarse cell
made the look-ahead depend on the unit of length.
---
 include/CoMMA/ARComputer.h   | 21 +++++++++++++++++++++
 include/CoMMA/Agglomerator.h |  5 ++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index 3b34152..96e2bdc 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -199,6 +199,17 @@ public:
     CellFeatures<IndexT, RealT, IntT> &new_feats
   ) const = 0;
 
+  /** @brief Whether the aspect-ratio computed when adding a fine cell to a
+   * coarse cell can be compared with those obtained by adding further cells.
+   * @param[in] card Cardinality of the coarse cell before the addition
+   * @return true if the comparison makes sense
+   */
+  virtual bool is_comparable_with_larger(
+    [[maybe_unused]] const std::size_t card
+  ) const {
+    return true;
+  }
+
 protected:
   /** @brief Dual_Graph object determining Fine cells graph and hence the
    * connectivity
@@ -515,6 +526,16 @@ public:
       ? new_feats._sq_diam
       : new_feats._sq_diam / new_feats._sq_min_edge;
   }
+
+  /** @brief Whether the aspect-ratio computed when adding a fine cell to a
+   * coarse cell can be compared with those obtained by adding further cells.
+   * With only 2 cells, the value is a squared diameter and not a ratio.
+   * @param[in] card Cardinality of the coarse cell before the addition
+   * @return true if the comparison makes sense
+   */
+  bool is_comparable_with_larger(const std::size_t card) const override {
+    return card > 1;
+  }
 };
 
 /** @brief ARComputer. Here, AR is the ratio of the external weights over the
diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 8b46de1..bd67652 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1745,7 +1745,10 @@ public:
         if (cur_max_faces_in_common > inner_max_faces_in_common) {
           inner_max_faces_in_common = cur_max_faces_in_common;
         } else if (cur_max_faces_in_common == inner_max_faces_in_common
-                   && cur_min_ar < inner_ar) {
+                   && cur_min_ar < inner_ar
+                   && this->_ar_computer->is_comparable_with_larger(
+                     s_of_fc_for_current_cc.size()
+                   )) {
           inner_ar = cur_min_ar;
         }
       }
-- 
2.43.0


From b93dffe979d606b441e7cbec410de62102b34bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:53 +0000
Subject: [PATCH 24/28] Revert the four changes of the Python tools of the
 examples

The tools are part of the example and test settings, which are to stay as they are.
---
 examples/scripts/comma_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/examples/scripts/comma_tools.py b/examples/scripts/comma_tools.py
index a87456b..ac36448 100644
--- a/examples/scripts/comma_tools.py
+++ b/examples/scripts/comma_tools.py
@@ -109,7 +109,9 @@ def compute_neighbourhood_wall_distance(
         # Actually, in the end its always the first...
         cur = to_visit.pop(0)
         next_tag = dist[cur] + 1
-        for neigh in neighs[neigh_idxs[cur] : neigh_idxs[cur + 1]]:
+        for neigh in np.nditer(
+            neighs[neigh_idxs[cur] : neigh_idxs[cur + 1]], op_flags=["readonly"]
+        ):
             if dist[neigh] < 0:
                 # Not visited: set dist and add it to queue
                 dist[neigh] = next_tag
@@ -269,15 +271,14 @@ def build_coarse_graph(
         # for every (previous) fine cell composing the current coarse cell...
         for fc in fcs:
             # ...loop over its neighbours
-            for edge in range(CSR_row[fc], CSR_row[fc + 1]):
-                neigh_fc = CSR_col[edge]
+            for neigh_fc in CSR_col[CSR_row[fc] : CSR_row[fc + 1]]:
                 # ...and if they are not in the same coarse cell...
                 if neigh_fc not in fcs:
                     # ...update the interface with the coarse cell to which the
                     # neighbours belongs
                     neigh_cc = fc2cc[neigh_fc]
                     neighs_cc[neigh_cc] = (
-                        neighs_cc.get(neigh_cc, 0.0) + CSR_val[edge]
+                        neighs_cc.get(neigh_cc, 0.0) + CSR_val[neigh_fc]
                     )
         coarse_CSR_col.extend(neighs_cc.keys())
         coarse_CSR_val.extend(neighs_cc.values())
@@ -328,7 +329,7 @@ def prepare_meshio_agglomeration_data(
     shuffle: bool, default: False
         Whether to shuffle the data before exporting.
     """
-    final_data = np.array(data)
+    final_data = np.asarray(data)
     if shuffle:
         n_cells = final_data.max() + 1
         new_data = np.arange(n_cells)
@@ -385,7 +386,7 @@ def assign_anisotropic_line_data_to_cells(
     if default_value == 0:
         lines += 1
     elif default_value > 0:
-        lines = -lines - 1
+        lines = -lines
     for ln in range(n_lines):
         # With the following commented definitions, the actual code would me more
         # readable:
-- 
2.43.0


From 579d757848ada56010936dc67a076422fb92d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:22 +0000
Subject: [PATCH 25/28] fix: let int_power be applied to quantities known at
 run time

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index a191826..0271c89 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -76,7 +76,7 @@ inline T constexpr int_power(const T x) {
   if constexpr (p == 2) return x * x;
   if constexpr (p == 3) return x * x * x;
 
-  constexpr int tmp = int_power<p / 2>(x);
+  const T tmp = int_power<p / 2>(x);
   if constexpr ((p % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From f410c4f3ec01227eb01e276eef6fa3cfc48bba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:22 +0000
Subject: [PATCH 26/28] fix: make the accessor to the fine-to-coarse map
 compile

---
 include/CoMMA/Agglomerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index bd67652..ab1482c 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -94,7 +94,7 @@ public:
   /** @brief Accessor to retrieve the fine cells to coarse cells from the coarse
    * cell graphs class
    */
-  inline std::vector<CoMMAIndexType> get_fc_2_cc() const {
+  inline std::vector<std::optional<CoMMAIndexType>> get_fc_2_cc() const {
     return _cc_graph->_fc_2_cc;
   }
 
-- 
2.43.0


From b235b137cb529a7f6d3a0af8f117e88a4f571226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:45 +0000
Subject: [PATCH 27/28] fix: take roots and absolute values in the precision of
 the number type

---
 include/CoMMA/ARComputer.h | 12 ++++++------
 include/CoMMA/Dual_Graph.h |  2 +-
 include/CoMMA/Util.h       |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index 96e2bdc..e56865f 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -147,11 +147,11 @@ public:
     if constexpr (dim < 2) {
       return _measure;
     } else if constexpr (dim == 2) {
-      return sqrt(_measure);
+      return std::sqrt(_measure);
     } else if constexpr (dim == 3) {
-      return cbrt(_measure);
+      return std::cbrt(_measure);
     } else {
-      return pow(_measure, 1.0 / dim);
+      return std::pow(_measure, 1.0 / dim);
     }
   }
 };
@@ -352,7 +352,7 @@ protected:
     const RealT sqx, const CellFeatures<IndexT, RealT, IntT> &feats
   ) const {
     if constexpr (dim < 2) {
-      return sqrt(sqx) / feats.template get_radius<dim>();
+      return std::sqrt(sqx) / feats.template get_radius<dim>();
     } else if constexpr (dim == 2) {
       return sqx / feats._measure;
     } else if constexpr (dim == 3) {
@@ -903,7 +903,7 @@ public:
     // Skipping if totally internal cell
     if (new_feats._external_facets[i_fc] > 0) {
       // Since we are comparing to a threshold, keep sqrt here
-      const auto dist = sqrt(
+      const auto dist = std::sqrt(
         squared_euclidean_distance<RealT>(bary, this->_graph->_centers[i_fc])
       );
       // Skipping if barycenter is the center of the cell
@@ -913,7 +913,7 @@ public:
     }
     for (const auto i_fc_cc : fc_of_cc) {
       if (new_feats._external_facets[i_fc_cc] > 0) {
-        const auto dist = sqrt(squared_euclidean_distance<RealT>(
+        const auto dist = std::sqrt(squared_euclidean_distance<RealT>(
           bary, this->_graph->_centers[i_fc_cc]
         ));
         if (dist > this->_tolerance) {
diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index cec1a09..234ad0e 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -604,7 +604,7 @@ public:
         ) -> CoMMAWeightType { return max_s / min_s; }
     : [](
         const CoMMAWeightType min_s, const CoMMAWeightType max_s
-      ) -> CoMMAWeightType { return sqrt(max_s / min_s); };
+      ) -> CoMMAWeightType { return std::sqrt(max_s / min_s); };
   }
 
   /** @brief Destructor of the class */
diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0271c89..c076f0e 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -92,7 +92,7 @@ inline T constexpr int_power(const T x) {
  */
 template<typename T>
 inline bool constexpr dot_deviate(const T dot) {
-  return fabs(dot) < decltype(fabs(dot)){deviate_thresh};
+  return std::fabs(dot) < decltype(std::fabs(dot)){deviate_thresh};
 }
 
 /** @brief Compute the dot product between two vectors. No check on size is
@@ -134,7 +134,7 @@ inline T get_direction(
     dir[i] = di;
     norm += di * di;
   }
-  norm = sqrt(norm);
+  norm = std::sqrt(norm);
   const T ov_norm = T{1.} / norm;
   for (auto &di : dir)
     di *= ov_norm;
-- 
2.43.0


From 11cb43c3bf53856d82c3dff24cc937b918504e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:27:19 +0000
Subject: [PATCH 28/28] fix: mark the connectivity of a coarse cell as out of
 date after insertions

---
 include/CoMMA/Coarse_Cell.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell.h b/include/CoMMA/Coarse_Cell.h
index b69959c..94fac26 100644
--- a/include/CoMMA/Coarse_Cell.h
+++ b/include/CoMMA/Coarse_Cell.h
@@ -224,6 +224,7 @@ public:
     this->_compactness = new_compactness.has_value()
       ? new_compactness.value()
       : this->_fc_graph->compute_min_fc_compactness_inside_a_cc(this->_s_fc);
+    _is_connectivity_up_to_date = false;
     // ...but now add to the subgraph
     _cc_graph->insert_node(
       this->_fc_graph->get_neighbours(i_fc),
@@ -248,6 +249,7 @@ public:
     this->_compactness = new_compactness.has_value()
       ? new_compactness.value()
       : this->_fc_graph->compute_min_fc_compactness_inside_a_cc(this->_s_fc);
+    _is_connectivity_up_to_date = false;
     // ...but now add to the subgraph
     for (const auto &i_fc : fcs) {
       _cc_graph->insert_node(
-- 
2.43.0

