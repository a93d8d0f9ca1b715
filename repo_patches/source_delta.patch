From 13012fb46d23723b06b25ca0cae88617e11f0457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:37 +0000
Subject: [PATCH 01/25] fix: Interval division drops the last partially covered
 coordinate

---
 include/samurai/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/interval.hpp b/include/samurai/interval.hpp
index bf2c9aa..6422e50 100644
--- a/include/samurai/interval.hpp
+++ b/include/samurai/interval.hpp
@@ -178,7 +178,7 @@ namespace samurai
     inline auto Interval<TValue, TIndex>::operator/=(value_t i) -> Interval&
     {
         start = static_cast<value_t>(std::floor(start / static_cast<double>(i)));
-        end   = static_cast<value_t>(std::floor(end / static_cast<double>(i)));
+        end   = static_cast<value_t>(std::ceil(end / static_cast<double>(i)));
         if (start == end)
         {
             ++end;
-- 
2.43.0


From d7b2cfd7fb6872f535707928ee3f5c0b03cf85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 02/25] fix: LevelCellArray iterator incremented to the end
 cannot be decremented

---
 include/samurai/level_cell_array.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index efdb732..9e41fea 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -965,6 +965,10 @@ namespace samurai
             return *this;
         }
         ++m_current_index[0];
+        if (m_current_index[0] == (*p_lca)[0].end())
+        {
+            return *this; // same state as end(), so that the iterator can be decremented
+        }
 
         for (std::size_t d = 0; d < m_current_index.size() - 1; ++d)
         {
-- 
2.43.0


From fe76c5148bd892117edaa5ca6beed77d486cca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 03/25] fix: CellArray iterator reads outside the storage when
 a level between two levels is empty

---
 include/samurai/cell_array.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/samurai/cell_array.hpp b/include/samurai/cell_array.hpp
index ce7d625..85b1816 100644
--- a/include/samurai/cell_array.hpp
+++ b/include/samurai/cell_array.hpp
@@ -607,7 +607,12 @@ namespace samurai
         ++m_lca_it;
         if (m_lca_it.level() < p_ca->max_level() && m_lca_it == (*p_ca)[m_lca_it.level()].end())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() + 1].begin();
+            auto level = m_lca_it.level() + 1;
+            while ((*p_ca)[level].empty()) // levels without cells are skipped
+            {
+                ++level;
+            }
+            m_lca_it = (*p_ca)[level].begin();
         }
         return *this;
     }
@@ -622,7 +627,12 @@ namespace samurai
 
         if (m_lca_it.level() > p_ca->min_level() && m_lca_it == (*p_ca)[m_lca_it.level()].begin())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() - 1].end();
+            auto level = m_lca_it.level() - 1;
+            while ((*p_ca)[level].empty()) // levels without cells are skipped
+            {
+                --level;
+            }
+            m_lca_it = (*p_ca)[level].end();
         }
         --m_lca_it;
         return *this;
-- 
2.43.0


From 2a2e9a8e860915e03d2c2352aeb2550da501dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 04/25] fix: for_each_cell on a set looks the cell number up
 before the row coordinates are known

---
 include/samurai/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 2998e42..9282759 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -276,8 +276,8 @@ namespace samurai
             [&](const auto& interval, const auto& index_yz)
             {
                 index[0]                         = interval.start;
-                auto cell_index                  = lca.get_index(index);
                 xt::view(index, xt::range(1, _)) = index_yz;
+                auto cell_index                  = lca.get_index(index);
                 for (index_value_t i = interval.start; i < interval.end; ++i)
                 {
                     index[0] = i;
-- 
2.43.0


From 852f637d5290882462d10505305474518724985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 05/25] fix: for_each_cell and for_each_meshinterval read
 outside the storage of an empty level

---
 include/samurai/algorithm.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 9282759..4c603b5 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -136,6 +136,11 @@ namespace samurai
     {
         using MeshInterval = typename LevelCellArray<dim, TInterval>::mesh_interval_t;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
         for (auto it = lca.cbegin(); it != lca.cend(); ++it)
         {
             f(MeshInterval(lca.level(), *it, it.index()));
@@ -209,6 +214,11 @@ namespace samurai
         using index_value_t = typename cell_t::value_t;
         typename cell_t::indices_t index;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
         for (auto it = lca.cbegin(); it != lca.cend(); ++it)
         {
             for (std::size_t d = 0; d < dim - 1; ++d)
@@ -231,6 +241,11 @@ namespace samurai
         using cell_t        = Cell<dim, TInterval>;
         using index_value_t = typename cell_t::value_t;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
 #pragma omp parallel
 #pragma omp single nowait
         {
-- 
2.43.0


From f08f88a688691bfe66ec9dd1ec0591e163247f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 06/25] fix: prediction of order 2 and more drops mixed terms
 of the cross corrections

---
 include/samurai/numeric/prediction.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index b205eae..815bd97 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -142,8 +142,8 @@ namespace samurai
         {
             using coord_index_t = typename interval_t::coord_index_t;
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i + static_cast<coord_index_t>(s), index...)
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i - static_cast<coord_index_t>(s), index...))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i + static_cast<coord_index_t>(s), index...)
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i - static_cast<coord_index_t>(s), index...))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, index...));
         }
 
@@ -152,8 +152,8 @@ namespace samurai
         {
             using coord_index_t = typename interval_t::coord_index_t;
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i + static_cast<coord_index_t>(slim), index...)
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i - static_cast<coord_index_t>(slim), index...)));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i + static_cast<coord_index_t>(slim), index...)
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i - static_cast<coord_index_t>(slim), index...)));
         }
 
         T m_e;
@@ -190,8 +190,8 @@ namespace samurai
         operator()(std::integral_constant<std::size_t, s>, std::size_t level, const interval_t& i, const coord_index_t j, const index_t... index)
         {
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j + static_cast<coord_index_t>(s), index...)
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j - static_cast<coord_index_t>(s), index...))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j + static_cast<coord_index_t>(s), index...)
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j - static_cast<coord_index_t>(s), index...))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, j, index...));
         }
 
@@ -203,8 +203,8 @@ namespace samurai
                                const index_t... index)
         {
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i, j + static_cast<coord_index_t>(slim), index...)
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i, j - static_cast<coord_index_t>(slim), index...)));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j + static_cast<coord_index_t>(slim), index...)
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j - static_cast<coord_index_t>(slim), index...)));
         }
 
         T m_e;
@@ -241,8 +241,8 @@ namespace samurai
         operator()(std::integral_constant<std::size_t, s>, std::size_t level, const interval_t& i, const coord_index_t j, const coord_index_t k)
         {
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k + static_cast<coord_index_t>(s))
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k - static_cast<coord_index_t>(s)))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k + static_cast<coord_index_t>(s))
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k - static_cast<coord_index_t>(s)))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k));
         }
 
@@ -254,8 +254,8 @@ namespace samurai
                                const coord_index_t k)
         {
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i, j, k + static_cast<coord_index_t>(slim))
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i, j, k - static_cast<coord_index_t>(slim))));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k + static_cast<coord_index_t>(slim))
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k - static_cast<coord_index_t>(slim))));
         }
 
         T m_e;
-- 
2.43.0


From 8dbafcd8ce2ee8b71b66a7a38c6bf72777a68f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:25 +0000
Subject: [PATCH 07/25] fix: prediction reads the wrong axis of SOA vector
 fields in 1D and 3D

---
 include/samurai/numeric/prediction.hpp | 130 ++++++++++++++-----------
 1 file changed, 72 insertions(+), 58 deletions(-)

diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index 815bd97..91300a5 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -308,6 +308,20 @@ namespace samurai
         return qs(std::integral_constant<std::size_t, 1>{}, level, i, j, k);
     }
 
+    // part of a correction which corresponds to the cells between first and the last one minus drop
+    template <class Field, class Q>
+    inline auto Qs_view(const Q& qs, int first, int drop)
+    {
+        if constexpr (Field::is_soa && Field::size > 1)
+        {
+            return xt::view(qs, xt::all(), xt::range(first, safe_subs<int>(qs.shape()[1], drop)));
+        }
+        else
+        {
+            return xt::view(qs, xt::range(first, safe_subs<int>(qs.shape()[0], drop)));
+        }
+    }
+
     /////////////////////////
     // prediction operator //
     /////////////////////////
@@ -432,7 +446,7 @@ namespace samurai
         {
             auto coarse_even_i  = even_i >> 1;
             auto dec_even       = (i.start & 1) ? 1 : 0;
-            dest(level, even_i) = src(level - 1, coarse_even_i) + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]));
+            dest(level, even_i) = src(level - 1, coarse_even_i) + Qs_view<T1>(qs_i, dec_even, 0);
         }
 
         auto odd_i = i.odd_elements();
@@ -440,7 +454,7 @@ namespace samurai
         {
             auto coarse_odd_i  = odd_i >> 1;
             auto dec_odd       = (i.end & 1) ? 1 : 0;
-            dest(level, odd_i) = src(level - 1, coarse_odd_i) - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)));
+            dest(level, odd_i) = src(level - 1, coarse_odd_i) - Qs_view<T1>(qs_i, 0, dec_odd);
         }
     }
 
@@ -733,13 +747,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + Qs_view<T1>(qs_i, dec_even, 0)
+                                              - Qs_view<T1>(qs_j, dec_even, 0)
+                                              - Qs_view<T1>(qs_k, dec_even, 0)
+                                              + Qs_view<T1>(qs_ij, dec_even, 0)
+                                              + Qs_view<T1>(qs_ik, dec_even, 0)
+                                              - Qs_view<T1>(qs_jk, dec_even, 0)
+                                              + Qs_view<T1>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -748,13 +762,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - Qs_view<T1>(qs_i, 0, dec_odd)
+                                             - Qs_view<T1>(qs_j, 0, dec_odd)
+                                             - Qs_view<T1>(qs_k, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ij, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ik, 0, dec_odd)
+                                             - Qs_view<T1>(qs_jk, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ijk, 0, dec_odd);
                 }
             }
             else
@@ -765,13 +779,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + Qs_view<T1>(qs_i, dec_even, 0)
+                                              + Qs_view<T1>(qs_j, dec_even, 0)
+                                              - Qs_view<T1>(qs_k, dec_even, 0)
+                                              - Qs_view<T1>(qs_ij, dec_even, 0)
+                                              + Qs_view<T1>(qs_ik, dec_even, 0)
+                                              + Qs_view<T1>(qs_jk, dec_even, 0)
+                                              - Qs_view<T1>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -780,13 +794,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - Qs_view<T1>(qs_i, 0, dec_odd)
+                                             + Qs_view<T1>(qs_j, 0, dec_odd)
+                                             - Qs_view<T1>(qs_k, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ij, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ik, 0, dec_odd)
+                                             + Qs_view<T1>(qs_jk, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ijk, 0, dec_odd);
                 }
             }
         }
@@ -800,13 +814,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + Qs_view<T1>(qs_i, dec_even, 0)
+                                              - Qs_view<T1>(qs_j, dec_even, 0)
+                                              + Qs_view<T1>(qs_k, dec_even, 0)
+                                              + Qs_view<T1>(qs_ij, dec_even, 0)
+                                              - Qs_view<T1>(qs_ik, dec_even, 0)
+                                              + Qs_view<T1>(qs_jk, dec_even, 0)
+                                              - Qs_view<T1>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -815,13 +829,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - Qs_view<T1>(qs_i, 0, dec_odd)
+                                             - Qs_view<T1>(qs_j, 0, dec_odd)
+                                             + Qs_view<T1>(qs_k, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ij, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ik, 0, dec_odd)
+                                             + Qs_view<T1>(qs_jk, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ijk, 0, dec_odd);
                 }
             }
             else
@@ -832,13 +846,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + Qs_view<T1>(qs_i, dec_even, 0)
+                                              + Qs_view<T1>(qs_j, dec_even, 0)
+                                              + Qs_view<T1>(qs_k, dec_even, 0)
+                                              - Qs_view<T1>(qs_ij, dec_even, 0)
+                                              - Qs_view<T1>(qs_ik, dec_even, 0)
+                                              - Qs_view<T1>(qs_jk, dec_even, 0)
+                                              + Qs_view<T1>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -847,13 +861,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - Qs_view<T1>(qs_i, 0, dec_odd)
+                                             + Qs_view<T1>(qs_j, 0, dec_odd)
+                                             + Qs_view<T1>(qs_k, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ij, 0, dec_odd)
+                                             + Qs_view<T1>(qs_ik, 0, dec_odd)
+                                             - Qs_view<T1>(qs_jk, 0, dec_odd)
+                                             - Qs_view<T1>(qs_ijk, 0, dec_odd);
                 }
             }
         }
-- 
2.43.0


From ccd95b55d842262d70714f21fdb621084ddf9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 08/25] fix: details of a tuple of SOA vector fields are
 computed with transposed shapes

---
 include/samurai/mr/operators.hpp       |  19 +---
 include/samurai/numeric/prediction.hpp | 124 ++++++++++++-------------
 2 files changed, 67 insertions(+), 76 deletions(-)

diff --git a/include/samurai/mr/operators.hpp b/include/samurai/mr/operators.hpp
index 956bb29..5abe904 100644
--- a/include/samurai/mr/operators.hpp
+++ b/include/samurai/mr/operators.hpp
@@ -333,21 +333,12 @@ namespace samurai
         template <class Ranges, class T1, class T2>
         inline void compute_detail_impl(Dim<dim> d, std::size_t i_r, const Ranges& ranges, T1& detail, const T2& field) const
         {
-            auto dest_shape = detail(ranges[i_r], ranges[i_r + 1], level + 1, 2 * i, 2 * index).shape();
-            auto src_shape  = field(level + 1, 2 * i, 2 * index).shape();
+            // the storage of the details and the one of the field may be transposed
+            static constexpr bool transpose = (T2::size == 1) ? !T1::is_soa : (T1::is_soa != T2::is_soa);
 
-            if (xt::same_shape(dest_shape, src_shape))
-            {
-                auto detail_range = detail::make_detail_range<false>(detail, ranges[i_r], ranges[i_r + 1]);
-                compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
-                compute_detail_(d, detail_range, field);
-            }
-            else
-            {
-                auto detail_range = detail::make_detail_range<true>(detail, ranges[i_r], ranges[i_r + 1]);
-                compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
-                compute_detail_(d, detail_range, field);
-            }
+            auto detail_range = detail::make_detail_range<transpose>(detail, ranges[i_r], ranges[i_r + 1]);
+            compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
+            compute_detail_(d, detail_range, field);
         }
 
         template <class T1, class T2, std::size_t... Is>
diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index 91300a5..d281dff 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -446,7 +446,7 @@ namespace samurai
         {
             auto coarse_even_i  = even_i >> 1;
             auto dec_even       = (i.start & 1) ? 1 : 0;
-            dest(level, even_i) = src(level - 1, coarse_even_i) + Qs_view<T1>(qs_i, dec_even, 0);
+            dest(level, even_i) = src(level - 1, coarse_even_i) + Qs_view<T2>(qs_i, dec_even, 0);
         }
 
         auto odd_i = i.odd_elements();
@@ -454,7 +454,7 @@ namespace samurai
         {
             auto coarse_odd_i  = odd_i >> 1;
             auto dec_odd       = (i.end & 1) ? 1 : 0;
-            dest(level, odd_i) = src(level - 1, coarse_odd_i) - Qs_view<T1>(qs_i, 0, dec_odd);
+            dest(level, odd_i) = src(level - 1, coarse_odd_i) - Qs_view<T2>(qs_i, 0, dec_odd);
         }
     }
 
@@ -561,7 +561,7 @@ namespace samurai
             {
                 auto coarse_even_i = even_i >> 1;
                 auto dec_even      = (i.start & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, even_i, j) = src(level - 1, coarse_even_i, j >> 1)
                                            + xt::view(qs_i, xt::all(), xt::range(dec_even, qs_i.shape()[1]))
@@ -581,7 +581,7 @@ namespace samurai
             {
                 auto coarse_odd_i = odd_i >> 1;
                 auto dec_odd      = (i.end & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, odd_i, j) = src(level - 1, coarse_odd_i, j >> 1)
                                           - xt::view(qs_i, xt::all(), xt::range(0, safe_subs<int>(qs_i.shape()[1], dec_odd)))
@@ -604,7 +604,7 @@ namespace samurai
             {
                 auto coarse_even_i = even_i >> 1;
                 auto dec_even      = (i.start & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, even_i, j) = src(level - 1, coarse_even_i, j >> 1)
                                            + xt::view(qs_i, xt::all(), xt::range(dec_even, qs_i.shape()[1]))
@@ -624,7 +624,7 @@ namespace samurai
             {
                 auto coarse_odd_i = odd_i >> 1;
                 auto dec_odd      = (i.end & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, odd_i, j) = src(level - 1, coarse_odd_i, j >> 1)
                                           - xt::view(qs_i, xt::all(), xt::range(0, safe_subs<int>(qs_i.shape()[1], dec_odd)))
@@ -747,13 +747,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + Qs_view<T1>(qs_i, dec_even, 0)
-                                              - Qs_view<T1>(qs_j, dec_even, 0)
-                                              - Qs_view<T1>(qs_k, dec_even, 0)
-                                              + Qs_view<T1>(qs_ij, dec_even, 0)
-                                              + Qs_view<T1>(qs_ik, dec_even, 0)
-                                              - Qs_view<T1>(qs_jk, dec_even, 0)
-                                              + Qs_view<T1>(qs_ijk, dec_even, 0);
+                                              + Qs_view<T2>(qs_i, dec_even, 0)
+                                              - Qs_view<T2>(qs_j, dec_even, 0)
+                                              - Qs_view<T2>(qs_k, dec_even, 0)
+                                              + Qs_view<T2>(qs_ij, dec_even, 0)
+                                              + Qs_view<T2>(qs_ik, dec_even, 0)
+                                              - Qs_view<T2>(qs_jk, dec_even, 0)
+                                              + Qs_view<T2>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -762,13 +762,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - Qs_view<T1>(qs_i, 0, dec_odd)
-                                             - Qs_view<T1>(qs_j, 0, dec_odd)
-                                             - Qs_view<T1>(qs_k, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ij, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ik, 0, dec_odd)
-                                             - Qs_view<T1>(qs_jk, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ijk, 0, dec_odd);
+                                             - Qs_view<T2>(qs_i, 0, dec_odd)
+                                             - Qs_view<T2>(qs_j, 0, dec_odd)
+                                             - Qs_view<T2>(qs_k, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ij, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ik, 0, dec_odd)
+                                             - Qs_view<T2>(qs_jk, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ijk, 0, dec_odd);
                 }
             }
             else
@@ -779,13 +779,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + Qs_view<T1>(qs_i, dec_even, 0)
-                                              + Qs_view<T1>(qs_j, dec_even, 0)
-                                              - Qs_view<T1>(qs_k, dec_even, 0)
-                                              - Qs_view<T1>(qs_ij, dec_even, 0)
-                                              + Qs_view<T1>(qs_ik, dec_even, 0)
-                                              + Qs_view<T1>(qs_jk, dec_even, 0)
-                                              - Qs_view<T1>(qs_ijk, dec_even, 0);
+                                              + Qs_view<T2>(qs_i, dec_even, 0)
+                                              + Qs_view<T2>(qs_j, dec_even, 0)
+                                              - Qs_view<T2>(qs_k, dec_even, 0)
+                                              - Qs_view<T2>(qs_ij, dec_even, 0)
+                                              + Qs_view<T2>(qs_ik, dec_even, 0)
+                                              + Qs_view<T2>(qs_jk, dec_even, 0)
+                                              - Qs_view<T2>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -794,13 +794,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - Qs_view<T1>(qs_i, 0, dec_odd)
-                                             + Qs_view<T1>(qs_j, 0, dec_odd)
-                                             - Qs_view<T1>(qs_k, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ij, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ik, 0, dec_odd)
-                                             + Qs_view<T1>(qs_jk, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ijk, 0, dec_odd);
+                                             - Qs_view<T2>(qs_i, 0, dec_odd)
+                                             + Qs_view<T2>(qs_j, 0, dec_odd)
+                                             - Qs_view<T2>(qs_k, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ij, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ik, 0, dec_odd)
+                                             + Qs_view<T2>(qs_jk, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ijk, 0, dec_odd);
                 }
             }
         }
@@ -814,13 +814,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + Qs_view<T1>(qs_i, dec_even, 0)
-                                              - Qs_view<T1>(qs_j, dec_even, 0)
-                                              + Qs_view<T1>(qs_k, dec_even, 0)
-                                              + Qs_view<T1>(qs_ij, dec_even, 0)
-                                              - Qs_view<T1>(qs_ik, dec_even, 0)
-                                              + Qs_view<T1>(qs_jk, dec_even, 0)
-                                              - Qs_view<T1>(qs_ijk, dec_even, 0);
+                                              + Qs_view<T2>(qs_i, dec_even, 0)
+                                              - Qs_view<T2>(qs_j, dec_even, 0)
+                                              + Qs_view<T2>(qs_k, dec_even, 0)
+                                              + Qs_view<T2>(qs_ij, dec_even, 0)
+                                              - Qs_view<T2>(qs_ik, dec_even, 0)
+                                              + Qs_view<T2>(qs_jk, dec_even, 0)
+                                              - Qs_view<T2>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -829,13 +829,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - Qs_view<T1>(qs_i, 0, dec_odd)
-                                             - Qs_view<T1>(qs_j, 0, dec_odd)
-                                             + Qs_view<T1>(qs_k, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ij, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ik, 0, dec_odd)
-                                             + Qs_view<T1>(qs_jk, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ijk, 0, dec_odd);
+                                             - Qs_view<T2>(qs_i, 0, dec_odd)
+                                             - Qs_view<T2>(qs_j, 0, dec_odd)
+                                             + Qs_view<T2>(qs_k, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ij, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ik, 0, dec_odd)
+                                             + Qs_view<T2>(qs_jk, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ijk, 0, dec_odd);
                 }
             }
             else
@@ -846,13 +846,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + Qs_view<T1>(qs_i, dec_even, 0)
-                                              + Qs_view<T1>(qs_j, dec_even, 0)
-                                              + Qs_view<T1>(qs_k, dec_even, 0)
-                                              - Qs_view<T1>(qs_ij, dec_even, 0)
-                                              - Qs_view<T1>(qs_ik, dec_even, 0)
-                                              - Qs_view<T1>(qs_jk, dec_even, 0)
-                                              + Qs_view<T1>(qs_ijk, dec_even, 0);
+                                              + Qs_view<T2>(qs_i, dec_even, 0)
+                                              + Qs_view<T2>(qs_j, dec_even, 0)
+                                              + Qs_view<T2>(qs_k, dec_even, 0)
+                                              - Qs_view<T2>(qs_ij, dec_even, 0)
+                                              - Qs_view<T2>(qs_ik, dec_even, 0)
+                                              - Qs_view<T2>(qs_jk, dec_even, 0)
+                                              + Qs_view<T2>(qs_ijk, dec_even, 0);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -861,13 +861,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - Qs_view<T1>(qs_i, 0, dec_odd)
-                                             + Qs_view<T1>(qs_j, 0, dec_odd)
-                                             + Qs_view<T1>(qs_k, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ij, 0, dec_odd)
-                                             + Qs_view<T1>(qs_ik, 0, dec_odd)
-                                             - Qs_view<T1>(qs_jk, 0, dec_odd)
-                                             - Qs_view<T1>(qs_ijk, 0, dec_odd);
+                                             - Qs_view<T2>(qs_i, 0, dec_odd)
+                                             + Qs_view<T2>(qs_j, 0, dec_odd)
+                                             + Qs_view<T2>(qs_k, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ij, 0, dec_odd)
+                                             + Qs_view<T2>(qs_ik, 0, dec_odd)
+                                             - Qs_view<T2>(qs_jk, 0, dec_odd)
+                                             - Qs_view<T2>(qs_ijk, 0, dec_odd);
                 }
             }
         }
-- 
2.43.0


From b70a55981e631b3393818c4c6aa570ab88ed8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:59 +0000
Subject: [PATCH 09/25] fix: corner ghosts of meshes periodic in some
 directions only are left stale on finer levels

The boundary conditions of a level are applied before its periodic images are copied, as on the coarsest level.
---
 include/samurai/algorithm/update.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index a73d5eb..97e4099 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -134,9 +134,9 @@ namespace samurai
                             .on(level);
 
             expr.apply_op(variadic_prediction<pred_order, false>(field, other_fields...));
+            update_bc(level, field, other_fields...);
             update_ghost_periodic(level, field, other_fields...);
             update_ghost_subdomains(level, field, other_fields...);
-            update_bc(level, field, other_fields...);
         }
 
         times::timers.stop("ghost update");
-- 
2.43.0


From 8decde52c26a81677d089687407ee784b810fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:59 +0000
Subject: [PATCH 10/25] fix: a line stencil laid along a 3D diagonal does not
 follow the direction

---
 include/samurai/stencil.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/samurai/stencil.hpp b/include/samurai/stencil.hpp
index 2bc132a..7e85026 100644
--- a/include/samurai/stencil.hpp
+++ b/include/samurai/stencil.hpp
@@ -439,6 +439,21 @@ namespace samurai
                     v_in_d(0) = cos * v_in_x(0) - sin * v_in_x(d);
                     v_in_d(d) = sin * v_in_x(0) + cos * v_in_x(d);
                 });
+
+            if constexpr (dim == 3)
+            {
+                // A diagonal of the space is not reached by one rotation around an axis: the line is laid along 'direction'.
+                if (!is_cartesian(direction))
+                {
+                    for (std::size_t i = 0; i < stencil_size; ++i)
+                    {
+                        for (std::size_t k = 0; k < dim; ++k)
+                        {
+                            stencil_in_d(i, k) = direction(k) * stencil_in_x(i, 0);
+                        }
+                    }
+                }
+            }
         }
         return stencil_in_d;
     }
-- 
2.43.0


From e19c8779c14e02a90538c019e2ed270b5118d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:59 +0000
Subject: [PATCH 11/25] fix: ghosts along the edges of a 3D domain are never
 extrapolated

---
 include/samurai/bc.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 7e42efc..915acfb 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -1024,10 +1024,31 @@ namespace samurai
                                 }
                                 else if constexpr (dim == 3)
                                 {
+                                    // Only the non-zero components of the direction take part: the domain translated by a zero
+                                    // component is the domain itself, and nothing would be left along the edges.
+                                    std::array<direction_t, dim> moves;
+                                    direction_t last_move;
+                                    for (std::size_t i = 0; i < dim; ++i)
+                                    {
+                                        if (dir[i] != 0)
+                                        {
+                                            last_move.fill(0);
+                                            last_move[i] = -dir[i];
+                                        }
+                                    }
+                                    for (std::size_t i = 0; i < dim; ++i)
+                                    {
+                                        moves[i] = last_move;
+                                        if (dir[i] != 0)
+                                        {
+                                            moves[i].fill(0);
+                                            moves[i][i] = -dir[i];
+                                        }
+                                    }
                                     auto subset = difference(domain,
-                                                             union_(translate(domain, one_interval * direction_t{-dir[0], 0, 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, 0, -dir[2]})));
+                                                             union_(translate(domain, one_interval * moves[0]),
+                                                                    translate(domain, one_interval * moves[1]),
+                                                                    translate(domain, one_interval * moves[2])));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
-- 
2.43.0


From 2498433ad25589f003b908ec8f6d9072c3125cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:52 +0000
Subject: [PATCH 12/25] fix: harten reads the level below level 0 when the
 minimum level is 0

---
 include/samurai/mr/adapt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/mr/adapt.hpp b/include/samurai/mr/adapt.hpp
index 1d87de0..a06da47 100644
--- a/include/samurai/mr/adapt.hpp
+++ b/include/samurai/mr/adapt.hpp
@@ -225,7 +225,7 @@ namespace samurai
         }
         update_ghost_subdomains(m_detail);
 
-        for (std::size_t level = min_level; level <= max_level - ite; ++level)
+        for (std::size_t level = std::max<std::size_t>(min_level, 1); level <= max_level - ite; ++level)
         {
             std::size_t exponent = dim * (max_level - level);
             double eps_l         = eps / (1 << exponent);
-- 
2.43.0


From 0f7d8e76ced4ae20fceff2c7e55300d65efba6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 13/25] fix: upwind convection of a vector field mixes its
 components

The linear upwind flux of a field with several components is the scalar flux
applied to each of them: the coefficient matrix is diagonal. A column was
filled instead, so every component was transported with component d only.
---
 .../schemes/fv/operators/convection_lin.hpp   | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 21a2544..aad7045 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -48,8 +48,11 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            // The same scalar upwind flux for each component
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -68,8 +71,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -178,8 +183,11 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            // The same scalar upwind flux for each component
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                     }
                     else // use the right values
@@ -193,8 +201,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                     }
                     return coeffs;
-- 
2.43.0


From c64e08fabf989f01647af010483476ee9125cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 14/25] fix: convection schemes keep a reference to the
 constant velocity they were given

The scheme outlives the call, so a temporary velocity (or one that goes out of
scope first) was read after its end of life. Keep a copy of it.
---
 include/samurai/schemes/fv/operators/convection_lin.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index aad7045..cae15f3 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -34,7 +34,7 @@ namespace samurai
 
                 if (velocity(d) >= 0) // use the left values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         // Return type: 2 matrices (left, right) of size output_field_size x field_size.
                         // In this case, of size field_size x field_size.
@@ -59,7 +59,7 @@ namespace samurai
                 }
                 else // use the right values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         FluxStencilCoeffs<cfg> coeffs;
                         if constexpr (output_field_size == 1)
@@ -116,7 +116,7 @@ namespace samurai
 
                 if (velocity(d) >= 0)
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[0]], u[cells[1]], u[cells[2]], u[cells[3]], u[cells[4]]});
                         f *= velocity(d);
@@ -125,7 +125,7 @@ namespace samurai
                 }
                 else
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[5]], u[cells[4]], u[cells[3]], u[cells[2]], u[cells[1]]});
                         f *= velocity(d);
-- 
2.43.0


From 4cd998b5a24469cdb48fd77c1926f9dd58c63941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 15/25] fix: the sum of two non-linear flux-based schemes does
 not compile

operator+ reset members of the scheme that belong to its flux definition, and
required analytical jacobians, which are optional.
---
 .../schemes/fv/flux_based/algebraic_operators.hpp   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
index 1229652..9709edc 100644
--- a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
@@ -119,7 +119,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].flux_function(cells, field)
                                  + scheme2.flux_definition()[d].flux_function(cells, field);
                         };
-                        sum_scheme.cons_flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].cons_flux_function = nullptr;
                     }
                     else if (scheme1.flux_definition()[d].cons_flux_function && scheme2.flux_definition()[d].cons_flux_function)
                     {
@@ -128,7 +128,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].cons_flux_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_flux_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].flux_function = nullptr;
                     }
                     else
                     {
@@ -142,7 +142,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].jacobian_function(cells, field)
                                  + scheme2.flux_definition()[d].jacobian_function(cells, field);
                         };
-                        sum_scheme.cons_jacobian_function = nullptr;
+                        sum_scheme.flux_definition()[d].cons_jacobian_function = nullptr;
                     }
                     else if (scheme1.flux_definition()[d].cons_jacobian_function && scheme2.flux_definition()[d].cons_jacobian_function)
                     {
@@ -151,12 +151,13 @@ namespace samurai
                             return scheme1.flux_definition()[d].cons_jacobian_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_jacobian_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].jacobian_function = nullptr;
                     }
                     else
                     {
-                        assert(false
-                               && "The case where scheme1.jacobian_function and scheme2.cons_jacobian_function are set is not implemented.");
+                        // no analytical jacobian, unless both schemes have one of the same kind
+                        sum_scheme.flux_definition()[d].jacobian_function      = nullptr;
+                        sum_scheme.flux_definition()[d].cons_jacobian_function = nullptr;
                     }
                 }
             });
-- 
2.43.0


From 349a9a2141852482ce14bec878ff8a959c548dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 16/25] fix: adding a cell-based scheme to a sum of operators
 modifies the sum

The combinable case added the scheme in place, so that using the same sum in
two expressions accumulated the terms. Work on a copy, which also accepts
const and temporary sums.
---
 include/samurai/schemes/fv/scheme_operators.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/scheme_operators.hpp b/include/samurai/schemes/fv/scheme_operators.hpp
index d9b4c86..05938eb 100644
--- a/include/samurai/schemes/fv/scheme_operators.hpp
+++ b/include/samurai/schemes/fv/scheme_operators.hpp
@@ -209,10 +209,11 @@ namespace samurai
 
     // OperatorSum + combinable CellBasedScheme
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
+    auto operator+(const OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
-        for_each(sum_scheme.operators(),
+        OperatorSum<Operators...> result(sum_scheme); // copy
+        for_each(result.operators(),
                  [&](auto& op)
                  {
                      if constexpr (std::is_same_v<CellBasedScheme<cfg, bdry_cfg>, std::decay_t<decltype(op)>>)
@@ -220,12 +221,12 @@ namespace samurai
                          op = op + scheme;
                      }
                  });
-        return sum_scheme;
+        return result;
     }
 
     // combinable CellBasedScheme + OperatorSum
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, OperatorSum<Operators...>& sum_scheme)
+    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, const OperatorSum<Operators...>& sum_scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
         return sum_scheme + scheme;
-- 
2.43.0


From 1f98de8b70055f0f7b54f085505386fada013e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 17/25] fix: the sum of two non-linear cell-based schemes does
 not compile

The local functions take a local field, not the field of the whole mesh.
---
 include/samurai/schemes/fv/cell_based/algebraic_operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
index 884b635..80c7a11 100644
--- a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
@@ -103,7 +103,7 @@ namespace samurai
             addition_scheme.local_scheme_function() = nullptr;
             if (scheme1.local_scheme_function() && scheme2.local_scheme_function())
             {
-                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_scheme_function()(cells, field) + scheme2.local_scheme_function()(cells, field);
                 };
@@ -121,7 +121,7 @@ namespace samurai
             addition_scheme.local_jacobian_function() = nullptr;
             if (scheme1.local_jacobian_function() && scheme2.local_jacobian_function())
             {
-                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_jacobian_function()(cells, field) + scheme2.local_jacobian_function()(cells, field);
                 };
-- 
2.43.0


From def6046e0921444adc22faf7d9cc501f453fcacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 18/25] fix: rounding errors drop the last row of cells of a
 box domain

The number of cells was truncated, so that a length computed slightly below a
multiple of the cell length lost a whole row, e.g. [1.18, 3.18] at level 4.
---
 include/samurai/level_cell_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index 9e41fea..e1a46ff 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -363,7 +363,8 @@ namespace samurai
 
         point_t start_pt;
         start_pt.fill(0);
-        point_t end_pt = approx_box.length() / cell_length();
+        // The lengths of the approximated box are multiples of the cell length up to rounding errors
+        point_t end_pt = xt::cast<value_t>(xt::round(approx_box.length() / cell_length()));
         init_from_box(box_t{start_pt, end_pt});
     }
 
-- 
2.43.0


From ca1d11904af0f0b752426b82e216fb86dd218103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 19/25] fix: nb_cells of a level of the reference mesh counts
 the cells of the coarser levels too

It returned one past the last number used on the level, and read outside the
storage of an empty level; every other sub-mesh counts the cells of the level.
---
 include/samurai/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4f83875..4a91c29 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -343,7 +343,7 @@ namespace samurai
     template <class D, class Config>
     inline std::size_t Mesh_base<D, Config>::nb_cells(std::size_t level, mesh_id_t mesh_id) const
     {
-        return (mesh_id == mesh_id_t::reference) ? max_nb_cells(level) : m_cells[mesh_id][level].nb_cells();
+        return m_cells[mesh_id][level].nb_cells();
     }
 
     template <class D, class Config>
-- 
2.43.0


From 13a5d7b455b99d6c4d188d139bf6ed735681a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 20/25] fix: swapping two meshes leaves their periodicity
 behind

---
 include/samurai/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4a91c29..b72837b 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -523,6 +523,7 @@ namespace samurai
         swap(m_union, mesh.m_union);
         swap(m_max_level, mesh.m_max_level);
         swap(m_min_level, mesh.m_min_level);
+        swap(m_periodic, mesh.m_periodic);
     }
 
     template <class D, class Config>
-- 
2.43.0


From 92bf58bc702c5d196cc0c382ab67b086eaf121fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 21/25] fix: a uniform mesh cannot be constructed from a list
 of cells

LevelCellArray has no constructor taking the second argument.
---
 include/samurai/uniform_mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/uniform_mesh.hpp b/include/samurai/uniform_mesh.hpp
index b600283..4338d12 100644
--- a/include/samurai/uniform_mesh.hpp
+++ b/include/samurai/uniform_mesh.hpp
@@ -101,7 +101,7 @@ namespace samurai
     template <class Config>
     inline UniformMesh<Config>::UniformMesh(const cl_type& cl)
     {
-        m_cells[mesh_id_t::cells] = {cl, false};
+        m_cells[mesh_id_t::cells] = {cl};
 
         update_sub_mesh();
         renumbering();
-- 
2.43.0


From 83c6639b747d2ff6671d6978992af77701d7699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 22/25] fix: corner extrapolation overwrites cells of domains
 that touch themselves at a corner

The neighbour of a corner cell along the diagonal was taken for a ghost without
checking that it lies outside of the domain.
---
 include/samurai/bc.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 915acfb..d9555bb 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -1019,7 +1019,8 @@ namespace samurai
                                 {
                                     auto subset = difference(domain,
                                                              union_(translate(domain, one_interval * direction_t{-dir[0], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1]})));
+                                                                    translate(domain, one_interval * direction_t{0, -dir[1]}),
+                                                                    translate(domain, -one_interval * dir)));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                                 else if constexpr (dim == 3)
@@ -1048,7 +1049,8 @@ namespace samurai
                                     auto subset = difference(domain,
                                                              union_(translate(domain, one_interval * moves[0]),
                                                                     translate(domain, one_interval * moves[1]),
-                                                                    translate(domain, one_interval * moves[2])));
+                                                                    translate(domain, one_interval * moves[2]),
+                                                                    translate(domain, -one_interval * dir)));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
-- 
2.43.0


From e609bdf3a39d2dd27b6a916e43e3d45605858f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:24 +0000
Subject: [PATCH 23/25] fix: comparing two vector fields does not compile

---
 include/samurai/field.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/samurai/field.hpp b/include/samurai/field.hpp
index 9bf7b2b..b844f2d 100644
--- a/include/samurai/field.hpp
+++ b/include/samurai/field.hpp
@@ -1009,9 +1009,19 @@ namespace samurai
         for_each_cell(mesh[mesh_id_t::cells],
                       [&](const auto& cell)
                       {
-                          if (std::abs(field1[cell] - field2[cell]) > 1e-15)
+                          if constexpr (size_ == 1)
                           {
-                              is_same = false;
+                              if (std::abs(field1[cell] - field2[cell]) > 1e-15)
+                              {
+                                  is_same = false;
+                              }
+                          }
+                          else
+                          {
+                              if (xt::any(xt::abs(field1[cell] - field2[cell]) > 1e-15))
+                              {
+                                  is_same = false;
+                              }
                           }
                       });
 
-- 
2.43.0


From cfa8c2e1fe60a6815b1bac9f1ed4c4e1e64fe70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 24/25] fix: portions of a cell over an interval are cached
 without their depth

---
 include/samurai/reconstruction.hpp | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/samurai/reconstruction.hpp b/include/samurai/reconstruction.hpp
index b7d9681..66b7037 100644
--- a/include/samurai/reconstruction.hpp
+++ b/include/samurai/reconstruction.hpp
@@ -458,18 +458,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(element, level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0]);
@@ -508,18 +508,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0]);
@@ -568,7 +568,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -576,13 +576,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1]);
@@ -627,7 +627,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -635,13 +635,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1]);
@@ -692,7 +692,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -702,14 +702,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
@@ -756,7 +756,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -766,14 +766,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
-- 
2.43.0


From b18bebb315d875093ea92b99e2e148565b90a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:40 +0000
Subject: [PATCH 25/25] fix: transferring a vector field to a coarser mesh
 mixes cells and components

---
 include/samurai/reconstruction.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/samurai/reconstruction.hpp b/include/samurai/reconstruction.hpp
index 66b7037..08d0e2b 100644
--- a/include/samurai/reconstruction.hpp
+++ b/include/samurai/reconstruction.hpp
@@ -1090,38 +1090,32 @@ namespace samurai
 
                         if constexpr (dim == 1)
                         {
-                            auto src = field_src(level_src, i);
-                            auto dst = field_dst(level_dst, i >> shift);
-                            for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
+                            for (value_t ii = i.start; ii < i.end; ++ii)
                             {
-                                auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
-                                                                      - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << shift);
+                                auto i_dst = ii >> static_cast<value_t>(shift);
+                                field_dst(level_dst, interval_t{i_dst, i_dst + 1}) += field_src(level_src, interval_t{ii, ii + 1})
+                                                                                      / (1 << shift);
                             }
                         }
                         else if constexpr (dim == 2)
                         {
                             auto j   = index[0];
-                            auto src = field_src(level_src, i, j);
-                            auto dst = field_dst(level_dst, i >> shift, j >> shift);
-                            for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
+                            for (value_t ii = i.start; ii < i.end; ++ii)
                             {
-                                auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
-                                                                      - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << (shift * dim));
+                                auto i_dst = ii >> static_cast<value_t>(shift);
+                                field_dst(level_dst, interval_t{i_dst, i_dst + 1}, j >> shift) += field_src(level_src, interval_t{ii, ii + 1}, j)
+                                                                                      / (1 << (shift * dim));
                             }
                         }
                         else if constexpr (dim == 3)
                         {
                             auto j   = index[0];
                             auto k   = index[1];
-                            auto src = field_src(level_src, i, j, k);
-                            auto dst = field_dst(level_dst, i >> shift, j >> shift, k >> shift);
-                            for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
+                            for (value_t ii = i.start; ii < i.end; ++ii)
                             {
-                                auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
-                                                                      - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << (shift * dim));
+                                auto i_dst = ii >> static_cast<value_t>(shift);
+                                field_dst(level_dst, interval_t{i_dst, i_dst + 1}, j >> shift, k >> shift) += field_src(level_src, interval_t{ii, ii + 1}, j, k)
+                                                                                      / (1 << (shift * dim));
                             }
                         }
                     });
-- 
2.43.0

