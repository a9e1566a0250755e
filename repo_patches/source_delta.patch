From 7a3ce7ffc48ab8701f4ef40037880b591b7fb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 01/11] fix: index edge weights by edge position when building
 the coarse graph

The weight of a coarse edge was read at the index of the neighbouring cell
instead of at the position of the edge.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..02f55c9 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From 21b73ad455e67dc133720aed88717656ad1cdd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 02/11] fix: handle non-positive priorities when building the
 coarse graph

numeric_limits::min() is the smallest positive value, so coarse cells made of
cells with zero or negative priority got a tiny positive one.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 02f55c9..e33c4a4 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_n_fc;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From a24cbaeeaf6f28d734373938de78e55dd1850647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 03/11] fix: ignore non-positive values when filtering cells by
 number of edges

The positive values were collected but the lookup still used the whole set.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index e33c4a4..906cdbb 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From 6d28a5aa0c26f4a60b0eba1e4bb708cd4849b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 04/11] fix: one-point seeds initialisation with non-positive
 priorities

With no positive priority among the candidates an invalid index was queued.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From 01ef3056a5bc62b7995359d0b90b628924266528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 05/11] fix: do not look for the maximum weight of a cell
 without neighbours

Tagging an isolated compliant cell with a negative threshold dereferenced the
end of an empty range.
---
 include/CoMMA/Dual_Graph.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..4a356c9 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,10 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            if (this->get_nb_of_neighbours(i_fc) > 0)
+              max_weights[i_fc] = *(max_element(
+                this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+              ));
           }
           break;
         }
-- 
2.43.0


From 40b0f65c4b41c3c664f6b81ea2dc432a44411909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:16 +0000
Subject: [PATCH 06/11] fix: respect line end and maximum length when cutting
 anisotropic lines

With an odd maximum number of cells and only two cells left, a third cell was
read past the end of the line. With an even maximum and three cells left, one
cell more than the maximum was used.
---
 include/CoMMA/Agglomerator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..5c22386 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -360,8 +360,11 @@ public:
             std::distance(line_it, end) == 3
             || (
               this->_max_cells_in_line.has_value()
-              && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+              && n_cells + 1 == this->_max_cells_in_line.value()
+              && std::distance(line_it, end) > 2)) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells < this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From 293046a71c83932ea33fdee6c0af3d88a9c1fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:31 +0000
Subject: [PATCH 07/11] fix: move every fine cell of a dissolved coarse cell

When a too-small coarse cell of several cells was dissolved cell by cell, the
cells without a suitable neighbour kept the number of the erased coarse cell.
---
 include/CoMMA/Coarse_Cell_Container.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..43d1e02 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,6 +202,7 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
+          auto left = fcs;
           for (const auto &[i_fc, neighs] : neighs_by_fc) {
             if (!neighs.empty()) {
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
@@ -211,6 +212,7 @@ Not used anymore but we leave it for example purposes
               if (new_cc.has_value()) {
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
+                left.erase(i_fc);
                 should_remove = true;
               }
             }
@@ -218,6 +220,21 @@ Not used anymore but we leave it for example purposes
             // partitioning does not give a connected partition), unfortunately,
             // there is nothing that we can do. We just skip it
           }
+          // The cells that could not be moved follow their former companions
+          for (auto it = left.begin(); should_remove && it != left.end();) {
+            std::optional<CoMMAIntType> new_compactness = std::nullopt;
+            const auto new_cc = select_best_cc_to_agglomerate(
+              *it, get_neighs_cc(*it, old_cc), max_card, new_compactness
+            );
+            if (new_cc.has_value()) {
+              _fc_2_cc[*it] = new_cc.value();
+              _ccs[new_cc.value()]->insert_cell(*it, new_compactness);
+              left.erase(it);
+              it = left.begin();
+            } else {
+              ++it;
+            }
+          }
         }
 
         if (should_remove) {
-- 
2.43.0


From aa42110ec56245c519f72d54e3130a9623528360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:31 +0000
Subject: [PATCH 08/11] fix: do not use the iterator of an extracted map node

Extracting a node invalidates its iterator, advance it beforehand.
---
 include/CoMMA/Coarse_Cell_Container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 43d1e02..e387767 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -256,13 +256,13 @@ Not used anymore but we leave it for example purposes
         it_cc = _ccs.find(new_ID - 1);
         ++it_cc;
       }
-      for (; it_cc != _ccs.end(); ++it_cc, ++new_ID) {
+      for (; it_cc != _ccs.end(); ++new_ID) {
         // Update fine cells
         for (auto const &i_fc : it_cc->second->_s_fc) {
           _fc_2_cc[i_fc] = new_ID;
         }
         // Update coarse cell ID
-        auto node = _ccs.extract(it_cc);
+        auto node = _ccs.extract(it_cc++);
         if (!node.empty()) {
           node.key() = new_ID;
           _ccs.insert(std::move(node));
-- 
2.43.0


From 1da6d0e0d81bb0615d3ce5300e2589f8a7a507a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:40 +0000
Subject: [PATCH 09/11] fix: keep coarse cell numbers and count up to date
 after correction

Renumbered coarse cells kept their old number and the number of coarse cells
still counted the dissolved ones.
---
 include/CoMMA/Coarse_Cell_Container.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index e387767..a7445bf 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -262,12 +262,14 @@ Not used anymore but we leave it for example purposes
           _fc_2_cc[i_fc] = new_ID;
         }
         // Update coarse cell ID
+        it_cc->second->_idx = new_ID;
         auto node = _ccs.extract(it_cc++);
         if (!node.empty()) {
           node.key() = new_ID;
           _ccs.insert(std::move(node));
         }
       }
+      _cc_counter = new_ID;
     }
   }
 
-- 
2.43.0


From cde3ebba11bcc0b8b74ccb77a16a134d65c0894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:08 +0000
Subject: [PATCH 10/11] fix: keep the compressed rows consistent when inserting
 a subgraph node

Row offsets were shifted from the row of the neighbour itself, and neighbours
outside of the subgraph were counted and shifted the weights.
---
 include/CoMMA/Dual_Graph.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 4a356c9..fb37765 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -404,13 +404,17 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    ContainerWeightType l_weight{};
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
+    auto w_it = weight.begin();
     for (const auto &elem : v_neigh) {
+      const auto cur_weight = *w_it++;
       const auto low1 =
         std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        l_weight.push_back(cur_weight);
       }
     }
     // variable to add weight for each face
@@ -431,11 +435,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -443,12 +447,12 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(*row_end + v_l_neigh.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
   }
-- 
2.43.0


From 931b37273aff3573868a66ea93475abbba8ebcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:43 +0000
Subject: [PATCH 11/11] fix: erase exactly the edges of the removed subgraph
 node

The loops went on after an erasure with positions that had shifted, so that
other edges were erased and some of the node stayed.
---
 include/CoMMA/Dual_Graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index fb37765..0407133 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -488,6 +488,7 @@ public:
                ++it_bis) {
             *it_bis = *it_bis - 1;
           }
+          break;
         }
       }
     }
@@ -495,7 +496,8 @@ public:
     // do the same with i_fc
     CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
     CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
+    for (auto n = ind; n != ind_p_one; ++n) {
+      const auto it = pos_col + ind;
       this->_m_CRS_Col_Ind.erase(it);
       // define the exact position of the element for the processing of the
       // weight later.
-- 
2.43.0

