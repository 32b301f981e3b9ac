From 442c4541c3432b46621ee444bebf96e16132560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 01/29] fix: small_vector::pop_back destroyed the wrong
 element, in-place insert put elements in the wrong place

---
 src/utility/small_vector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..a39868e 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                if (src_size != 0) std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
 
                 return first_ + offset;
             }
@@ -841,7 +842,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                if (src_size != 0) std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From 370579fa7e3d3c3619efabb0c4f03dcff3a47dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 02/29] fix: dynamic_bitset::resize left stale bits in the old
 partial block, queries of an empty bitset were out of bounds

---
 src/utility/dynamic_bitset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..df74786 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -121,10 +121,12 @@ namespace gapp::detail
         {
             blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
 
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size() != 0)
             {
-                blocks_.back() &= partial_block_mask();
-                blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
+                block_type& old_partial_block = blocks_[full_block_count()];
+
+                old_partial_block &= partial_block_mask();
+                old_partial_block |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
             size_ = new_size;
@@ -245,7 +247,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return partial_block_size() ? blocks_.back() & partial_block_mask() : zeros<block_type>;
         }
     };
 
-- 
2.43.0


From e9d9f9df6b75cfe264c6a773d4df54ac9b2c50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 03/29] fix: circular_buffer::set_capacity freed the live
 buffer when copying the elements failed

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..fa7d5d8 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
-- 
2.43.0


From 347e879f43f206562683594d3d95a858bba4a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 04/29] fix: integer::Uniform mutation never terminated for
 genes with a single possible value

---
 src/mutation/integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..829fe46 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,9 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            /* There are no other values to choose from, so the gene can't be changed. */
+            if (bounds[idx].lower() == bounds[idx].upper()) continue;
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From 0fad69756a989e641fdbe90418d7d57225794225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 05/29] fix: permutation mutations could be performed with a
 mutation rate of 0

---
 src/mutation/permutation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..0a36b9a 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -36,7 +36,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);
 
@@ -49,7 +49,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 3) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
 
@@ -65,7 +65,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 2;
             const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);
@@ -84,7 +84,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
             const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
-- 
2.43.0


From 14df70e4a489503b85a2456e0851bc9c222b72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 06/29] fix: perm::Shift mutation sampled two positions from a
 single one when the range covered the chromosome

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 0a36b9a..d97b0b8 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From e5a7463a22824e290f2d92ccee1a5c87157681d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 07/29] fix: randomBinomial could return non-zero values with a
 probability of 0

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..e427b35 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -416,7 +416,7 @@ namespace gapp::rng
         GAPP_ASSERT(0.0 <= p && p <= 1.0);
 
         IntType res = 0;
-        while (n--) { res += (randomReal() <= p); }
+        while (n--) { res += (randomReal() < p); }
         return res;
     }
 
-- 
2.43.0


From 862dc243b5dc862d5f744de216d08fb23ee9bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 08/29] fix: sampleUnique could return duplicates for ranges of
 65536 or more values

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index e427b35..5023533 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -467,7 +467,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From d08ffe5de438e8f417655a7289f659f8990a970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 09/29] fix: randomReal<float> and randomReal<long double>
 generated values outside of [0, 1)

---
 src/utility/rng.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 5023533..a1b0958 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -339,7 +339,9 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        constexpr int unused_bits = std::numeric_limits<ConcurrentXoroshiro128p::result_type>::digits - std::numeric_limits<RealType>::digits;
+
+        return (rng::prng() >> unused_bits) * (std::numeric_limits<RealType>::epsilon() / 2);
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 5b374f66f1b7892430968f5c32eed073ffa4964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 10/29] fix: the difference of two stable iterators was never
 negative

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..c8a2d6f 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return lhs.idx_ >= rhs.idx_ ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From cbdff7cc7151fefb9a7bdcb1570637b872687223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 11/29] fix: keep the crowding distances of the NSGA-II
 survivors in the order of the new population

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..410cffa 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const auto dists = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = dists[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From 9cbf73e2a85c0fb256653f91fc41e57ae5a0fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 12/29] fix: select every NSGA-III survivor only once and stop
 using exhausted reference lines

---
 src/algorithm/nsga3.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..7439ed5 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -374,12 +374,15 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            /* Only the candidates that haven't been selected yet can be considered. */
+            const std::span<FrontElement> remaining_front{ partial_front.begin() + i, partial_front.end() };
+
+            const size_t associated_sol_count = std::count_if(remaining_front.begin(), remaining_front.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining_front, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From 0eaeb1e574508d8edacb9d52379c14eb67b89700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 13/29] fix: rank selection of a population with a single
 candidate (0/0 selection weight)

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..328d068 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = (weights.size() > 1) ? i / (weights.size() - 1.0) : 1.0;
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From 4327d2bb54e030ff32f8a408f4793983660b1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 14/29] fix: use the scale parameter of the sigma scaling
 selection

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 328d068..f65057e 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -121,7 +121,7 @@ namespace gapp::selection
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-            const double weight = 1.0 + (f - fmean) * idiv;
+            const double weight = 1.0 + (f - fmean) * idiv / scale_;
 
             return std::clamp(weight, 0.0, math::large<double>);  /* If ( fitness < (f_mean - scale * SD) ) the weight could be negative. */
         });
-- 
2.43.0


From 22f2e0956a554f12a40dfa07216de1cd1e93972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 15/29] fix: allow the fitness cache to be set for dynamic
 fitness functions

The cache is documented to be disabled when the fitness function is dynamic,
but the GA hit an assertion instead.
---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..e3d5356 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From 64cf5984feb637c861ea3635f9e8db2a36a45ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 16/29] fix: report the right generation number in the
 callbacks of the GA

The generation counter was only incremented after the metrics and the
generation callback, so both saw 0 for the first two generations, and the
number of the previous generation afterwards.
---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e3d5356..994b76e 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -528,11 +528,12 @@ namespace gapp
 
         updatePopulation(std::move(children));
 
+        generation_cntr_++;
+
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 2bdda9a7e12edf3bc4fde11ee556eb7d50f892d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 17/29] fix: only stop when every objective reaches the
 threshold of FitnessValue

The stop condition is documented to stop the run when a solution equal to or
better than the threshold is found, but it also stopped for solutions that are
incomparable with it.
---
 src/stop_condition/stop_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..426b2d9 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,7 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(), math::floatIsGreaterEq<double>);
         });
     }
 
-- 
2.43.0


From 912e693a5cd18784fccd2c676d8eb3d42d28c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 18/29] fix: handle the largest patience value in the stall
 stop conditions

The patience counter overflowed to 0 for it, which stopped the run in the first
generation instead of never.
---
 src/stop_condition/stop_condition.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/stop_condition.hpp b/src/stop_condition/stop_condition.hpp
index 48c5bd7..cc25458 100644
--- a/src/stop_condition/stop_condition.hpp
+++ b/src/stop_condition/stop_condition.hpp
@@ -6,6 +6,7 @@
 #include "stop_condition_base.hpp"
 #include "../core/population.hpp"
 #include "../utility/bounded_value.hpp"
+#include <algorithm>
 #include <cstddef>
 
 namespace gapp::stopping
@@ -157,7 +158,7 @@ namespace gapp::stopping
         double delta_;
         size_t cntr_;
 
-        constexpr void reset() noexcept { cntr_ = patience_ + 1; }
+        constexpr void reset() noexcept { cntr_ = std::max(patience_, patience_ + 1); }
         bool stop_condition(const GaInfo& ga) override;
     };
 
@@ -224,7 +225,7 @@ namespace gapp::stopping
         double delta_;
         size_t cntr_;
 
-        constexpr void reset() noexcept { cntr_ = patience_ + 1; }
+        constexpr void reset() noexcept { cntr_ = std::max(patience_, patience_ + 1); }
         bool stop_condition(const GaInfo& ga) override;
     };
 
-- 
2.43.0


From 150231ba469741b7e1e082957e5a89eaf2f2d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 19/29] fix: evaluate both sides of an OR stop condition in
 every generation

An OR can be a part of another stop condition, so the run may go on when its
left side is true, and the right side missed that generation.
---
 src/stop_condition/composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..4ec4aff 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,9 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated, since the GA is not necessarily stopped if
+            // left_ returns true when this condition is only a part of another one.
+            return std::invoke(left_, ga) | std::invoke(right_, ga);
         }
 
         Left left_;
-- 
2.43.0


From 49432aed5c43fed4e61e557a434ded9cc8007843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 20/29] fix: negate stop conditions that are already negated

Deducing the template argument of NOT from another NOT selected its move
constructor, so !!condition was the same as !condition.
---
 src/stop_condition/composite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 4ec4aff..236f586 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -103,7 +103,7 @@ namespace gapp::stopping
 
     constexpr auto operator!(std::derived_from<StopCondition> auto base) noexcept
     {
-        return dtl::NOT{ std::move(base) };
+        return dtl::NOT<decltype(base)>{ std::move(base) };
     }
 
 } // namespace gapp::stopping
-- 
2.43.0


From 4eb7e85566af38f5bd0e8eb162132ae1a2211f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 21/29] fix: use the default algorithm in every constructor
 documented to do so

The constructor that takes a pointer to an algorithm did not use the default
algorithm for a nullptr, and the one that takes the operators by value always
used the single-objective algorithm.
---
 src/core/ga_base.impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 994b76e..f1b9cb5 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
@@ -83,7 +82,6 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From 97c814d24e50b4811f28505bfbb3c5c5a4e76376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 22/29] fix: deduce the default mutation rate again in every
 run

Setting the default mutation rate for the first run disabled its deduction, so
later runs with another chromosome length kept the rate of the first one.
---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index f1b9cb5..97e7a24 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -347,7 +347,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From 0aa93dce64c91900cde06f1e87f1bee198d27e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 23/29] fix: wait for the queued tasks of a parallel loop when
 the caller's own part throws

---
 src/utility/thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..ea229b2 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -65,7 +65,10 @@ namespace gapp::detail
                 if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            // The queued tasks refer to the local variables of this function, so this can't exit
+            // with an exception until all of them are done.
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From 9c2e14003b5b8ffb07ec3739fd5d70f9ef553c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 24/29] fix: compute the hypervolumes of earlier generations
 again when the reference point changes

---
 src/metrics/distribution_metrics.cpp | 12 ++++--------
 src/metrics/distribution_metrics.hpp |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..a710f5c 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,8 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        fitness_matrices_.clear();
+        fitness_matrices_.reserve(ga.max_gen());
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -62,7 +62,6 @@ namespace gapp::metrics
         const auto& fitness_matrix = ga.fitness_matrix();
 
         FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
@@ -71,15 +70,12 @@ namespace gapp::metrics
         {
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(fitness_matrices_[i], worst_point_);
             }
         }
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+        fitness_matrices_.push_back(fitness_matrix);
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..3c50a21 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -79,7 +79,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fitness_matrices_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From e4941e8287f8c89be190acbc9c7b6009f3880da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 25/29] fix: don't use a reference to a cone tree node after
 adding nodes

---
 src/utility/cone_tree.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..dee25c2 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -159,11 +159,12 @@ namespace gapp::detail
                 Node left_child{ .first = node.first, .last = middle_idx };
                 Node right_child{ .first = middle_idx, .last = node.last };
 
+                /* Adding the children may invalidate the reference to the parent node. */
+                node.left = nodes_.size();
+                node.right = nodes_.size() + 1;
+
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
-
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 9ad3cf02fb852707b47ba538c60a7e977b23b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 26/29] fix: use the larger magnitude as the scale in
 floatIsLessAssumeNotGreater

---
 src/utility/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..5fa30f0 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,7 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From 7e4f466c418ee1028750ea42ff7d574d6cd1526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 27/29] fix: NaN is not part of any interval

---
 src/utility/bounded_value.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/bounded_value.hpp b/src/utility/bounded_value.hpp
index da91540..2f1c164 100644
--- a/src/utility/bounded_value.hpp
+++ b/src/utility/bounded_value.hpp
@@ -19,9 +19,10 @@ namespace gapp::detail
 
         constexpr bool contains(const T& value) const noexcept
         {
-            if (value < left_  || (!left_inclusive_  && value == left_))  return false;
-            if (value > right_ || (!right_inclusive_ && value == right_)) return false;
-            return true;
+            /* Values that aren't comparable to the bounds (i.e. NaN) are not part of any interval. */
+            const bool left_ok  = left_inclusive_  ? (left_ <= value)  : (left_ < value);
+            const bool right_ok = right_inclusive_ ? (value <= right_) : (value < right_);
+            return left_ok && right_ok;
         }
 
         T left_;
-- 
2.43.0


From ccfff777626095181d78c5121986259d280e0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 28/29] fix: order the epoch of an RCU reader before its reads
 of the protected data

---
 src/utility/rcu.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..cba5527 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -22,7 +22,8 @@ namespace gapp::detail
         static void read_lock() noexcept
         {
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            /* The epoch must be visible to the writers before any of the protected data is read. */
+            std::atomic_thread_fence(std::memory_order_seq_cst);
         }
 
         static void read_unlock() noexcept
@@ -32,6 +33,9 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
+            /* Pairs with the fence in read_lock(). */
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+
             uint64_t current = writer_epoch.load(std::memory_order_acquire);
             uint64_t target  = current + 1;
             writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
-- 
2.43.0


From 0e792b87ccdc41a22d6884e1ffc50901acfe5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 29/29] fix: keep the points of QuasiRandom in the unit cube
 for large seeds

---
 src/utility/qrng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/qrng.hpp b/src/utility/qrng.hpp
index 97ad738..80c9b9a 100644
--- a/src/utility/qrng.hpp
+++ b/src/utility/qrng.hpp
@@ -80,7 +80,7 @@ namespace gapp::rng
         for (size_type i = 0; i < point_.size(); i++)
         {
             point_[i] += alpha_[i];
-            point_[i] -= size_type(point_[i]);
+            point_[i] -= std::floor(point_[i]);
         }
 
         return point_;
-- 
2.43.0

