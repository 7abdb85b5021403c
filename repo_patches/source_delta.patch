From 0ddeea52b2c71ad8e27d170eb3cb05219cae9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 01/48] fix: limit the range length of the Shift mutation so
 the range can always be moved

---
 src/mutation/permutation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..56efdee 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,8 @@ namespace gapp::mutation::perm
         if (rng::randomReal() <= mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            /* A range containing every gene of the chromosome couldn't be moved to a different position. */
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From f94077c5aeb0b6e68a6c50a7d3a28cd5e7facad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 02/48] fix: infinite loop in the integer Uniform mutation for
 genes with a single valid value

---
 src/mutation/integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..6e24389 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,9 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            /* There is no other value to choose if the gene only has a single valid value. */
+            if (bounds[idx].lower() == bounds[idx].upper()) continue;
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From 4279f98815e542eb8d13fbed1c57f255be1c8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 03/48] fix: allow Tournament selection for populations smaller
 than the tournament size

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..aeaf04f 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -62,7 +62,7 @@ namespace gapp::selection
 
     size_t Tournament::selectImpl(const GaInfo&, const FitnessMatrix& fmat) const
     {
-        GAPP_ASSERT(fmat.size() >= tourney_size_);
+        GAPP_ASSERT(!fmat.empty());
         GAPP_ASSERT(fmat.ncols() == 1);
 
         small_vector<size_t> candidate_indices(tourney_size_);
-- 
2.43.0


From bea1857f2e75e19ae5393afae9300c0459019e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 04/48] fix: NaN selection weight in Rank selection for
 populations of size 1

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index aeaf04f..f239ab6 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From 7ac4bb4dc0fee8626ec8d8322ca73fe20833ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 05/48] fix: assertion failure for dynamic fitness functions
 when the cache is enabled

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..e3d5356 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From 9e4cc76467f793f2675751bb2743e25b08cee945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 06/48] fix: use the default algorithm when a nullptr algorithm
 is given to the GA constructor

---
 src/core/ga_base.impl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e3d5356..b47ad95 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
-- 
2.43.0


From c5ef336ecb461cd648d65c1cdc20cef4649199a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 07/48] fix: deduce the default mutation rate again in every
 run

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index b47ad95..f4972e7 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -348,7 +348,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From 15640883c5ff060a33c96132b1a54da2eae91a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 08/48] fix: deduce the algorithm when only the genetic
 operators are given to the GA constructor

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index f4972e7..57582ca 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -82,7 +82,7 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
+           std::unique_ptr<algorithm::Algorithm>(),
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From 83e07056a1455d85253428ed9cb63d475603ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 09/48] fix: report the current generation in the metrics and
 the generation callback

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 57582ca..797d809 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -526,12 +526,12 @@ namespace gapp
         });
 
         updatePopulation(std::move(children));
+        generation_cntr_++;
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 620e594158dc5e65068a4b66e100bc710c3dca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 10/48] fix: remove the duplicates from the optimal solutions
 of the initial population

---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 797d809..b7c5ae7 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -337,7 +337,6 @@ namespace gapp
         population_ = generatePopulation(population_size_, std::move(initial_population));
         detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
         fitness_matrix_ = detail::toFitnessMatrix(population_);
-        if (keep_all_optimal_sols_) solutions_ = detail::findParetoFront(population_);
 
         GAPP_ASSERT(isValidEvaluatedPopulation(population_));
         GAPP_ASSERT(fitnessMatrixIsSynced());
@@ -348,6 +347,8 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
+        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+
         if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
-- 
2.43.0


From dda6fd7323693bee12746f86f2acbd718cbcc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 11/48] fix: make the results of seeded runs independent of the
 order in which the worker threads start

---
 src/utility/rng.hpp         | 60 +++++++++++++++++++++++++++----------
 src/utility/thread_pool.hpp | 22 +++++++++++---
 src/utility/utility.hpp     |  3 ++
 3 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..3253c3f 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -178,10 +178,34 @@ namespace gapp::rng
 
         /** Advance the state of the generator by 2^96 steps. */
         constexpr Xoroshiro128p& jump() noexcept
+        {
+            return jump({ 0xd2a98b26625eee7bULL, 0xdddf9b1090aa7ac1ULL });
+        }
+
+        /** Advance the state of the generator by 2^64 steps. */
+        constexpr Xoroshiro128p& short_jump() noexcept
+        {
+            return jump({ 0xdf900294d8f554a5ULL, 0x170865df4b3201fcULL });
+        }
+
+        /** Set a new seed for the generator. */
+        constexpr void seed(std::uint64_t seed) noexcept { state_ = seed_sequence(seed); }
+
+        /** @returns The smallest possible value that can be generated. */
+        static constexpr result_type min() noexcept { return std::numeric_limits<result_type>::min(); }
+
+        /** @returns The largest possible value that can be generated. */
+        static constexpr result_type max() noexcept { return std::numeric_limits<result_type>::max(); }
+
+        /** Compare the internal state of 2 generators. @returns True if they are the same. */
+        friend constexpr bool operator==(const Xoroshiro128p&, const Xoroshiro128p&) = default;
+
+    private:
+        constexpr Xoroshiro128p& jump(const std::array<std::uint64_t, 2>& jump_polynomial) noexcept
         {
             state_type new_state{ 0, 0 };
 
-            for (std::uint64_t JUMP : { 0xd2a98b26625eee7bULL, 0xdddf9b1090aa7ac1ULL })
+            for (std::uint64_t JUMP : jump_polynomial)
             {
                 for (std::size_t n = 0; n < 64; n++)
                 {
@@ -198,19 +222,6 @@ namespace gapp::rng
             return *this;
         }
 
-        /** Set a new seed for the generator. */
-        constexpr void seed(std::uint64_t seed) noexcept { state_ = seed_sequence(seed); }
-
-        /** @returns The smallest possible value that can be generated. */
-        static constexpr result_type min() noexcept { return std::numeric_limits<result_type>::min(); }
-
-        /** @returns The largest possible value that can be generated. */
-        static constexpr result_type max() noexcept { return std::numeric_limits<result_type>::max(); }
-
-        /** Compare the internal state of 2 generators. @returns True if they are the same. */
-        friend constexpr bool operator==(const Xoroshiro128p&, const Xoroshiro128p&) = default;
-
-    private:
         static constexpr state_type seed_sequence(std::uint64_t seed) noexcept
         {
             Splitmix64 seed_seq_gen(seed);
@@ -251,10 +262,11 @@ namespace gapp::rng
         {
             std::scoped_lock _{ tls_generators_->lock };
             global_generator_.seed(seed);
+            worker_base_generator_.seed(seed);
 
             for (RegisteredGenerator* generator : tls_generators_->list)
             {
-                generator->instance = global_generator_.jump();
+                generator->instance = nextGenerator(generator->worker_id);
 
                 generator->bool_distribution.reset();
                 generator->normal_distribution.reset();
@@ -274,7 +286,7 @@ namespace gapp::rng
             RegisteredGenerator() noexcept // NOLINT(*exception-escape)
             {
                 std::scoped_lock _{ tls_generators_->lock };
-                instance = global_generator_.jump();
+                instance = nextGenerator(worker_id);
                 tls_generators_->list.push_back(this);
             }
 
@@ -285,12 +297,27 @@ namespace gapp::rng
             }
 
             Xoroshiro128p instance{ 0 };
+            size_t worker_id = detail::this_thread_worker_id;
 
             detail::uniform_bool_distribution bool_distribution;
             std::normal_distribution<double> normal_distribution;
             std::poisson_distribution<std::uint64_t> poisson_distribution;
         };
 
+        /*
+        * The generators of the library's worker threads only depend on the seed and the id of the worker,
+        * so that they are not affected by the order in which the worker threads happen to start using them.
+        */
+        static Xoroshiro128p nextGenerator(size_t worker_id) noexcept
+        {
+            if (worker_id == 0) return global_generator_.jump();
+
+            Xoroshiro128p generator = worker_base_generator_;
+            while (worker_id--) { generator.short_jump(); }
+
+            return generator;
+        }
+
         struct GeneratorList
         {
             detail::spinlock lock;
@@ -302,6 +329,7 @@ namespace gapp::rng
         template<std::floating_point T> friend T randomNormal(T, T);
 
         GAPP_API inline static constinit Xoroshiro128p global_generator_{ GAPP_SEED };
+        GAPP_API inline static constinit Xoroshiro128p worker_base_generator_{ GAPP_SEED };
         GAPP_API inline static detail::Indestructible<GeneratorList> tls_generators_;
         alignas(128) inline static thread_local RegisteredGenerator generator_;
     };
diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..231f8b4 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <type_traits>
 #include <concepts>
+#include <deque>
 #include <thread>
 #include <atomic>
 #include <future>
@@ -91,7 +92,7 @@ namespace gapp::detail
             reset_scheduler();
             if (count == thread_count()) return;
             stop();
-            workers_ = std::vector<worker_t>(count - 1);
+            workers_ = create_workers(count - 1);
         }
 
         size_t thread_count() const noexcept
@@ -114,8 +115,10 @@ namespace gapp::detail
 
         struct alignas(128) worker_t
         {
-            static void worker_main(detail::concurrent_queue<task_t>& task_queue) noexcept
+            static void worker_main(detail::concurrent_queue<task_t>& task_queue, size_t worker_id) noexcept
             {
+                this_thread_worker_id = worker_id;
+
                 while (true)
                 {
                     auto task = task_queue.take();
@@ -124,10 +127,21 @@ namespace gapp::detail
                 }
             }
 
+            explicit worker_t(size_t worker_id) :
+                thread(worker_main, std::ref(task_queue), worker_id)
+            {}
+
             detail::concurrent_queue<task_t> task_queue;
-            std::jthread thread{ worker_main, std::ref(task_queue) };
+            std::jthread thread;
         };
 
+        static std::deque<worker_t> create_workers(size_t count)
+        {
+            std::deque<worker_t> workers;
+            for (size_t i = 0; i < count; i++) { workers.emplace_back(i + 1); }
+            return workers;
+        }
+
         auto scheduled_worker_queue() noexcept -> detail::concurrent_queue<task_t>&
         {
             const size_t current_turn   = turn_.fetch_add(1, std::memory_order_relaxed);
@@ -150,7 +164,7 @@ namespace gapp::detail
             for (worker_t& worker : workers_) { worker.task_queue.close(); }
         }
 
-        std::vector<worker_t> workers_{ std::max(std::thread::hardware_concurrency(), 1u) - 1u };
+        std::deque<worker_t> workers_ = create_workers(std::max(std::thread::hardware_concurrency(), 1u) - 1u);
         std::atomic<size_t> turn_;
     };
 
diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 59c8ed8..f19a9b4 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -148,6 +148,9 @@ namespace gapp
 
 namespace gapp::detail
 {
+    /* The id of the current thread if it's one of the worker threads of the library, or 0 for every other thread. */
+    inline thread_local size_t this_thread_worker_id = 0;
+
     template<typename T>
     inline void clear_reserve(std::vector<T>& vec, size_t new_capacity = 0)
     {
-- 
2.43.0


From 0303c454f0c59457376595b2cb9c1f293b4d107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 12/48] fix: wait for the other tasks of a parallel loop when
 the calling thread's iterations throw

---
 src/utility/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 231f8b4..3dbae3f 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -66,7 +66,8 @@ namespace gapp::detail
                 if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From eba0781cfb89394784da027dccebc975e2b1dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 13/48] fix: make the hypervolume independent of the scheduling
 of the threads

---
 src/metrics/pop_stats.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/metrics/pop_stats.cpp b/src/metrics/pop_stats.cpp
index 47b86c5..e67c634 100644
--- a/src/metrics/pop_stats.cpp
+++ b/src/metrics/pop_stats.cpp
@@ -13,7 +13,6 @@
 #include <numeric>
 #include <functional>
 #include <iterator>
-#include <atomic>
 #include <cmath>
 #include <cstddef>
 
@@ -168,19 +167,19 @@ namespace gapp::detail
     {
         const FitnessMatrix front = uniqueSortedParetoFront(fmat);
 
-        std::atomic<double> hypervolume = 0.0;
+        /* The exclusive hypervolumes are always summed in the same order,
+         * so the result doesn't depend on the scheduling of the threads. */
+        std::vector<double> exclusive_hypervolumes(front.size());
 
         detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(front.size()), [&](size_t idx)
         {
             const auto point = front[idx];
             const FitnessMatrix rest = { front.begin() + idx + 1, front.end() };
 
-            const double exclusive_hypervolume = exclusiveHypervolume(point, rest, ref_point);
-
-            hypervolume.fetch_add(exclusive_hypervolume, std::memory_order_relaxed);
+            exclusive_hypervolumes[idx] = exclusiveHypervolume(point, rest, ref_point);
         });
 
-        return hypervolume.load(std::memory_order_relaxed);
+        return std::accumulate(exclusive_hypervolumes.begin(), exclusive_hypervolumes.end(), 0.0);
     }
 
     static inline double hypervolume(seq, const FitnessMatrix& fmat, std::span<const double> ref_point)
-- 
2.43.0


From 60c12abfa214d131ac6c2630d149ea89aaa9c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 14/48] fix: exponential run time of the hypervolume for
 approximately equal points

---
 src/metrics/pop_stats.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/metrics/pop_stats.cpp b/src/metrics/pop_stats.cpp
index e67c634..d9b35bd 100644
--- a/src/metrics/pop_stats.cpp
+++ b/src/metrics/pop_stats.cpp
@@ -122,14 +122,23 @@ namespace gapp::detail
 
     static inline FitnessMatrix uniqueSortedParetoFront(const FitnessMatrix& fmat)
     {
-        const auto optimal_indices = detail::findParetoFrontSort(fmat);
+        const auto indices = detail::argsort(fmat.begin(), fmat.end(), [](const auto& lhs, const auto& rhs) noexcept
+        {
+            return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+        });
 
         FitnessMatrix front;
-        front.reserve(optimal_indices.size(), fmat.ncols());
+        front.reserve(indices.size(), fmat.ncols());
 
-        for (size_t optimal_idx : optimal_indices)
+        /* The comparisons must be exact here. Points that are only approximately equal to each other would
+         * never be removed from the front, making the number of recursive calls exponential in their number. */
+        for (size_t idx : indices)
         {
-            if (front.empty() || fmat[optimal_idx] != front.back()) front.append_row(fmat[optimal_idx]);
+            const bool dominated = std::any_of(front.begin(), front.end(), [&](const auto& point) noexcept
+            {
+                return std::equal(point.begin(), point.end(), fmat[idx].begin(), fmat[idx].end(), std::greater_equal{});
+            });
+            if (!dominated) front.append_row(fmat[idx]);
         }
 
         return front;
-- 
2.43.0


From ae78c6c4110777df978a37b593a7f2f2c5e03af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 15/48] fix: merging Pareto sets depended on the scheduling of
 the threads for approximately equal fitness values

---
 src/core/population.hpp | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/core/population.hpp b/src/core/population.hpp
index 46436b5..bf35fd8 100644
--- a/src/core/population.hpp
+++ b/src/core/population.hpp
@@ -96,7 +96,7 @@ namespace gapp::detail
         return detail::select(pop, optimal_indices);
     }
 
-    enum class ParetoDominance : char { UNKNOWN = 0, OPTIMAL = 1, DOMINATED = 2 };
+    enum class ParetoDominance : char { OPTIMAL = 0, DOMINATED = 1 };
 
     template<typename T>
     Candidates<T> mergeParetoSets(Candidates<T> lhs, Candidates<T> rhs)
@@ -111,44 +111,22 @@ namespace gapp::detail
         std::vector<ParetoDominance> lhs_state(lhs.size());
         std::vector<ParetoDominance> rhs_state(rhs.size());
 
+        /* The dominance relation isn't transitive because of the floating-point tolerances, so the results of
+         * the comparisons can't be used to skip other comparisons. Doing so would make the result depend on the
+         * order of the comparisons. */
         detail::parallel_for(iota_iterator(0_sz), iota_iterator(lhs.size()), [&](size_t i) noexcept
         {
             for (size_t j = 0; j < rhs.size(); j++)
             {
-                const ParetoDominance rhs_state_j = std::atomic_ref{ rhs_state[j] }.load(std::memory_order_relaxed);
-
-                if (lhs_state[i] == DOMINATED) continue;
-                if (rhs_state_j  == DOMINATED) continue;
-
-                if (lhs_state[i] == OPTIMAL)
-                {
-                    if (rhs_state_j == UNKNOWN && math::paretoCompareLess(rhs[j].fitness, lhs[i].fitness))
-                    {
-                        std::atomic_ref{ rhs_state[j] }.store(DOMINATED, std::memory_order_relaxed);
-                    }
-                    continue;
-                }
-                if (rhs_state_j == OPTIMAL)
-                {
-                    if (math::paretoCompareLess(lhs[i].fitness, rhs[j].fitness))
-                    {
-                        lhs_state[i] = DOMINATED;
-                    }
-                    continue;
-                }
-
                 const auto comp = math::paretoCompare(lhs[i].fitness, rhs[j].fitness);
                 if (comp < 0)
                 {
                     lhs_state[i] = DOMINATED;
-                    std::atomic_ref{ rhs_state[j] }.store(OPTIMAL, std::memory_order_relaxed);
                 }
                 else if (comp > 0)
                 {
-                    lhs_state[i] = OPTIMAL;
                     std::atomic_ref{ rhs_state[j] }.store(DOMINATED, std::memory_order_relaxed);
                 }
-                // comp == 0 --> both are OPTIMAL or DOMINATED, can't know
             }
         });
 
-- 
2.43.0


From 58e8858b6ab7ec97ec81e03c4695b0768c64bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 16/48] fix: take the scale parameter into account in the Sigma
 selection

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index f239ab6..1bcf5b1 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From 4175a788b66556b1a6888ec5f1ced353e04a3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 17/48] fix: crowding distances of NSGA-II belonged to other
 candidates than those of the new population

---
 src/algorithm/nsga2.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..922b1f1 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,14 +100,15 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
-        dists_.resize(popsize);
+        const std::vector<double> crowding_distances = crowdingDistances(fmat, pareto_fronts.fronts());
 
         small_vector<size_t> new_pop(popsize);
+        dists_.resize(popsize);
         for (size_t i = 0; i < popsize; i++)
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = crowding_distances[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From e79f17a87c22e404cd34976322a9e374bff53776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 18/48] fix: NSGA-III selected candidates from exhausted niches
 when filling the next population

---
 src/algorithm/nsga3.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..e9ecaae 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -374,12 +374,15 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            /* The candidates of the partial front that were already selected can't be selected again. */
+            const auto remaining = std::span<FrontElement>(partial_front).subspan(i);
+
+            const size_t associated_sol_count = std::count_if(remaining.begin(), remaining.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From 8e50a42729759e4fd8f57bfcb2eab9e0429eed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 19/48] fix: don't accept NaN as the value of the bounded
 parameter types

---
 src/utility/bounded_value.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/bounded_value.hpp b/src/utility/bounded_value.hpp
index da91540..0b475ee 100644
--- a/src/utility/bounded_value.hpp
+++ b/src/utility/bounded_value.hpp
@@ -19,9 +19,11 @@ namespace gapp::detail
 
         constexpr bool contains(const T& value) const noexcept
         {
-            if (value < left_  || (!left_inclusive_  && value == left_))  return false;
-            if (value > right_ || (!right_inclusive_ && value == right_)) return false;
-            return true;
+            /* The comparisons are all false for NaN values, which are not contained in any interval. */
+            const bool left_ok  = left_inclusive_  ? (left_ <= value)  : (left_ < value);
+            const bool right_ok = right_inclusive_ ? (value <= right_) : (value < right_);
+
+            return left_ok && right_ok;
         }
 
         T left_;
-- 
2.43.0


From 672f944b7110616bf8b0db7dbb9aac4eda5e63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 20/48] fix: nested mutations overwrote the saved candidate of
 the outer mutation

---
 src/mutation/mutation_base.impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mutation/mutation_base.impl.hpp b/src/mutation/mutation_base.impl.hpp
index 398e0f6..289f776 100644
--- a/src/mutation/mutation_base.impl.hpp
+++ b/src/mutation/mutation_base.impl.hpp
@@ -25,8 +25,9 @@ namespace gapp::mutation
         {
             /* If the candidate is already evaluated (happens when the crossover didn't change the candidate),
                its current fitness vector is valid, and we can save a fitness function call when the mutation
-               doesn't change the chromosome. */
-            thread_local Candidate<T> old_candidate; old_candidate = candidate;
+               doesn't change the chromosome. (A mutation operator may use other mutation operators, so the old candidate
+               can't be shared between the calls of this function.) */
+            const Candidate<T> old_candidate = candidate;
 
             mutate(ga, candidate, candidate.chromosome);
             candidate.is_evaluated = (candidate == old_candidate);
-- 
2.43.0


From 6e6cee33c880f4f9cd694aca4960d9be98014519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 21/48] fix: composite OR stop condition didn't evaluate its
 right operand when the left one was true

---
 src/stop_condition/composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..66873cd 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,9 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated here too, since the GA won't necessarily be stopped
+            // when left_ returns true (this could be a part of another composite stop condition).
+            return std::invoke(left_, ga) | std::invoke(right_, ga);
         }
 
         Left left_;
-- 
2.43.0


From 8c094786ed3609e4e4a81787ce7a5518eaa8a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 22/48] fix: FitnessValue stop condition was met by fitness
 vectors incomparable to the threshold

---
 src/stop_condition/stop_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..426b2d9 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,7 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(), math::floatIsGreaterEq<double>);
         });
     }
 
-- 
2.43.0


From a4f665fb60bd716463341a80c6c0a25f7ceba19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 23/48] fix: paretoCompareLess used a different tolerance for
 negative values than the other comparisons

---
 src/utility/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..b7527d3 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,8 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        /* Negative numbers may have a larger magnitude even if they are less, so both of them have to be considered. */
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From e84a2b3a2097c1e4e566dd3dd16c46cbf4e431d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 24/48] fix: stall stop conditions with the largest patience
 value stopped without waiting

---
 src/stop_condition/stop_condition.cpp | 8 ++++----
 src/stop_condition/stop_condition.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 426b2d9..149a948 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -65,9 +65,9 @@ namespace gapp::stopping
         const FitnessVector current_mean = detail::fitnessMean(fitness_matrix.begin(), fitness_matrix.end());
 
         const bool improved = metricImproved(best_fitness_mean_, current_mean, delta_);
-        improved ? reset() : (void) (cntr_ -= !!cntr_); // NOLINT(*conversion)
+        improved ? reset() : (void) ++cntr_;
 
-        return cntr_ == 0;
+        return cntr_ > patience_;
     }
 
 
@@ -83,9 +83,9 @@ namespace gapp::stopping
         const FitnessVector current_max = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         const bool improved = metricImproved(fitness_max_, current_max, delta_);
-        improved ? reset() : (void) (cntr_ -= !!cntr_); // NOLINT(*conversion)
+        improved ? reset() : (void) ++cntr_;
 
-        return cntr_ == 0;
+        return cntr_ > patience_;
     }
 
 } // namespace gapp::stopping
\ No newline at end of file
diff --git a/src/stop_condition/stop_condition.hpp b/src/stop_condition/stop_condition.hpp
index 48c5bd7..ae200fc 100644
--- a/src/stop_condition/stop_condition.hpp
+++ b/src/stop_condition/stop_condition.hpp
@@ -157,7 +157,7 @@ namespace gapp::stopping
         double delta_;
         size_t cntr_;
 
-        constexpr void reset() noexcept { cntr_ = patience_ + 1; }
+        constexpr void reset() noexcept { cntr_ = 0; }
         bool stop_condition(const GaInfo& ga) override;
     };
 
@@ -224,7 +224,7 @@ namespace gapp::stopping
         double delta_;
         size_t cntr_;
 
-        constexpr void reset() noexcept { cntr_ = patience_ + 1; }
+        constexpr void reset() noexcept { cntr_ = 0; }
         bool stop_condition(const GaInfo& ga) override;
     };
 
-- 
2.43.0


From 7946860c46d829b6835259b991e4498c24d4a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 25/48] fix: composite stop conditions couldn't be nested or
 contain conditions with a non-public initialize method

---
 src/stop_condition/composite.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 66873cd..083aa17 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -23,8 +23,9 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            // The method might not be accessible in the derived classes.
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -49,8 +50,9 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            // The method might not be accessible in the derived classes.
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -75,7 +77,8 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            base_.initialize(ga);
+            // The method might not be accessible in the derived classes.
+            static_cast<StopCondition&>(base_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
-- 
2.43.0


From 05d22ee6b442c968e8eebcd829542ad98e2b470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 26/48] fix: the double negation of a stop condition was its
 single negation

---
 src/stop_condition/composite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 083aa17..0b2390c 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -106,7 +106,7 @@ namespace gapp::stopping
 
     constexpr auto operator!(std::derived_from<StopCondition> auto base) noexcept
     {
-        return dtl::NOT{ std::move(base) };
+        return dtl::NOT<decltype(base)>{ std::move(base) }; // CTAD would select the move constructor of NOT for !!condition
     }
 
 } // namespace gapp::stopping
-- 
2.43.0


From d27d737a73e7a96530d90b448fc8988304f629f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 27/48] fix: AutoHypervolume adjusted the earlier hypervolumes
 incorrectly when the reference point changed

---
 src/metrics/distribution_metrics.cpp | 14 ++++++--------
 src/metrics/distribution_metrics.hpp |  3 ++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..7c38bfb 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,8 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        fitness_matrices_.clear();
+        fitness_matrices_.reserve(ga.max_gen());
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -62,24 +62,22 @@ namespace gapp::metrics
         const auto& fitness_matrix = ga.fitness_matrix();
 
         FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
 
         if (worst_point_ != prev_worst_point)
         {
+            /* The change in the hypervolumes depends on the entire pareto fronts, not just on their
+             * ideal points, so the old values have to be recomputed for the new reference point. */
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(fitness_matrices_[i], worst_point_);
             }
         }
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+        fitness_matrices_.push_back(fitness_matrix);
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..dca0123 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -6,6 +6,7 @@
 #include "monitor.hpp"
 #include "../core/candidate.hpp"
 #include <span>
+#include <vector>
 
 namespace gapp::metrics
 {
@@ -79,7 +80,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fitness_matrices_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From e87e7a38983357739c7c7a5d08ec3ea92933ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 28/48] fix: sampling unique integers from large ranges could
 return duplicates

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 3253c3f..8c55c22 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -495,7 +495,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From b4e399c24a7c9ba4e648504e3219a3a9c4edb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 29/48] fix: random real numbers could lie outside of their
 range

---
 src/utility/rng.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 8c55c22..0da58cb 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -367,7 +367,10 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        constexpr size_t bits = std::min<size_t>(std::numeric_limits<RealType>::digits, 64);
+        constexpr RealType scale = RealType(0.5) / (std::uint64_t{ 1 } << (bits - 1));
+
+        return (rng::prng() >> (64 - bits)) * scale;
     }
 
     template<std::floating_point RealType>
@@ -375,7 +378,15 @@ namespace gapp::rng
     {
         GAPP_ASSERT(lbound <= ubound);
 
-        return lbound + (ubound - lbound) * rng::randomReal();
+        const RealType rand = rng::randomReal<RealType>();
+        const RealType length = ubound - lbound;
+
+        /* The length of the range may not be representable even if both of the bounds are. */
+        const bool overflow = length > std::numeric_limits<RealType>::max();
+        const RealType value = overflow ? lbound * (1 - rand) + ubound * rand : lbound + length * rand;
+
+        /* The value may be rounded up to the upper bound, which is not part of the range. */
+        return (value < ubound) ? value : std::max(lbound, std::nextafter(ubound, lbound));
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 73483d530f6aa9ee0446f11dce355062cc860ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 30/48] fix: weighted sampling could select an element of zero
 weight

---
 src/utility/rng.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 0da58cb..44c8314 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -570,7 +570,8 @@ namespace gapp::rng
 
         const RealType threshold = rng::randomReal<RealType>(0.0, cdf.back()); // use cdf.back() in case it's not exactly 1.0
 
-        return std::distance(cdf.begin(), detail::lower_bound(cdf.begin(), cdf.end(), threshold));
+        /* The threshold is less than cdf.back(), the first element that is greater than it always has a non-zero probability. */
+        return std::distance(cdf.begin(), std::upper_bound(cdf.begin(), cdf.end() - 1, threshold));
     }
 
 } // namespace gapp::rng
-- 
2.43.0


From 0026cec7016b1cf7e34183800f0ed7c9adaa3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 31/48] fix: exception safety of circular_buffer (wrong
 noexcept specifications, set_capacity and reset released the wrong buffer)

---
 src/utility/circular_buffer.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..ed6d3c3 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -188,28 +188,28 @@ namespace gapp::detail
         //-----------------------------------//
 
         constexpr void push_back(const value_type& value)
-        noexcept(std::is_nothrow_copy_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_back(value);
         }
 
         constexpr void push_back(value_type&& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_back(std::move(value));
         }
 
         constexpr void push_front(const value_type& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(value);
         }
 
         constexpr void push_front(value_type&& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(std::move(value));
@@ -217,7 +217,7 @@ namespace gapp::detail
 
         template<typename... Args>
         constexpr reference emplace_back(Args&&... args)
-        noexcept(std::is_nothrow_constructible_v<T, Args&&...>)
+        noexcept(std::is_nothrow_constructible_v<T, Args&&...> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
 
@@ -237,7 +237,7 @@ namespace gapp::detail
 
         template<typename... Args>
         constexpr reference emplace_front(Args&&... args)
-        noexcept(std::is_nothrow_constructible_v<T, Args&&...>)
+        noexcept(std::is_nothrow_constructible_v<T, Args&&...> && std::is_nothrow_move_assignable_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
 
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
@@ -299,8 +299,9 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
+            pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
             if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
-            buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
+            buffer_ = new_buffer;
             capacity_ = new_capacity;
         }
 
-- 
2.43.0


From 816dae44f70885d55586413e5e48226320d44244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 32/48] fix: small_vector::pop_back destroyed the memory past
 the last element

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..b993b91 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From 12ac1e8c6c76f096925b4fdbfa00d7e3166778e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 33/48] fix: small_vector::insert overwrote elements when fewer
 elements were inserted than there are after the position

---
 src/utility/small_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index b993b91..a39868e 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                if (src_size != 0) std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
 
                 return first_ + offset;
             }
@@ -841,7 +842,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                if (src_size != 0) std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From bac4164fba905260d632896347da38d7bf630293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 34/48] fix: small_vector::assign and insert did not compile
 for non-random access forward iterators

---
 src/utility/small_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index a39868e..ad25af8 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -258,7 +258,7 @@ namespace gapp::detail
     constexpr void assign_range(T* first, T* last, Iter src_first)
     noexcept(std::is_nothrow_assignable_v<T&, std::iter_reference_t<Iter>>)
     {
-        std::copy(src_first, src_first + std::distance(first, last), first);
+        std::copy_n(src_first, std::distance(first, last), first);
     }
 
     template<typename T>
@@ -495,7 +495,7 @@ namespace gapp
             if (last_alloc_ - first_ >= src_size)
             {
                 detail::assign_range(first_, first_ + com_size, src_first);
-                detail::construct_range(alloc_, first_ + com_size, first_ + src_size, src_first + com_size);
+                detail::construct_range(alloc_, first_ + com_size, first_ + src_size, std::next(src_first, com_size));
                 detail::destroy_range(alloc_, first_ + com_size, last_);
                 last_ = first_ + src_size;
             }
-- 
2.43.0


From 113df49a5b1ff3e05ef8b82b065fce879bc13bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 35/48] fix: small_vector::insert and resize with a value that
 is an element of the vector

---
 src/utility/small_vector.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index ad25af8..1ecab21 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -801,6 +801,9 @@ namespace gapp
         {
             if (last_alloc_ - last_ >= count)
             {
+                /* The value might be an element of the vector. */
+                detail::allocator_managed<T, A> new_value(alloc_, value);
+
                 const difference_type offset = std::distance(cbegin(), pos);
                 const difference_type src_size = difference_type(count);
 
@@ -810,12 +813,12 @@ namespace gapp
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                detail::construct_range(alloc_, last_, new_middle, *new_value);
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
                 if (src_size != 0) std::move_backward(first_ + offset, middle, old_last);
-                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, *new_value);
 
                 return first_ + offset;
             }
@@ -969,10 +972,11 @@ namespace gapp
 
             detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
             detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
-            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
-            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
+            /* The new elements must be created first, the value might be an element of the vector. */
             detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value);
-            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
+            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::relocate_range_weak(alloc_, first_ + offset, last_, alloc_result.data + offset + src_size);
             { guard1.release(); guard2.release(); guard3.release(); }
             detail::destroy_range(alloc_, first_, last_);
@@ -1017,12 +1021,26 @@ namespace gapp
                 detail::destroy_range(alloc_, first_ + count, last_);
                 last_ = first_ + count;
             }
-            else
+            else if (count <= capacity())
             {
-                reserve(count);
                 detail::construct_range(alloc_, last_, first_ + count, std::forward<Args>(args)...);
                 last_ = first_ + count;
             }
+            else
+            {
+                const size_type old_size = size();
+
+                detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, next_capacity(count - capacity()));
+                detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
+                /* The new elements must be created first, the arguments might refer to an element of the vector. */
+                detail::construct_range(alloc_, alloc_result.data + old_size, alloc_result.data + count, std::forward<Args>(args)...);
+                detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + old_size, alloc_result.data + count); } };
+                detail::relocate_range_strong(alloc_, first_, last_, alloc_result.data);
+                { guard1.release(); guard2.release(); }
+                detail::destroy_range(alloc_, first_, last_);
+                deallocate();
+                set_storage(alloc_result.data, count, alloc_result.size);
+            }
         }
 
         constexpr void set_storage(pointer first, pointer last, pointer last_alloc) noexcept
-- 
2.43.0


From 6b6f32231f454c8cd689abf15ddf40956ec74961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 36/48] fix: small_vector copied the bytes of ranges of other
 element types instead of converting the elements

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 1ecab21..fcafd9a 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -196,7 +196,7 @@ namespace gapp::detail
     {
         using R = std::iter_reference_t<Iter>;
 
-        if constexpr (std::contiguous_iterator<Iter> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
+        if constexpr (std::contiguous_iterator<Iter> && std::is_same_v<std::iter_value_t<Iter>, T> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
         {
             if (!std::is_constant_evaluated())
             {
-- 
2.43.0


From a0b045cd00ee19c2de6932e262a9773bc12ab3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 37/48] fix: small_vector move assignment took over storage
 from an unequal allocator

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index fcafd9a..473e33d 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -557,7 +557,7 @@ namespace gapp
         {
             if (std::addressof(other) == this) [[unlikely]] return *this;
 
-            if (!this->is_small() && !other.is_small())
+            if (!this->is_small() && !other.is_small() && (detail::steal_pointers_v<A> || alloc_ == other.alloc_))
             {
                 using std::swap;
 
-- 
2.43.0


From 6982b885c6f09b43f1becd4e4d26985b8c3d4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 38/48] fix: small_vector leaked the elements created from an
 input range if an exception was thrown

---
 src/utility/small_vector.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 473e33d..ec4eb77 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -406,10 +406,7 @@ namespace gapp
 
         template<std::input_iterator Iter>
         constexpr small_vector(Iter src_first, Iter src_last, const A& allocator = A()) :
-            first_(buffer_.begin()),
-            last_(buffer_.begin()),
-            last_alloc_(buffer_.end()),
-            alloc_(allocator)
+            small_vector(allocator)
         {
             while (src_first != src_last) emplace_back(*src_first++);
         }
-- 
2.43.0


From 7e5ed9817a1e7151899b7d56d3cad94ad9c70cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 39/48] fix: circular_buffer and fifo_cache moved forward
 iterators backwards

---
 src/utility/cache.hpp           | 2 +-
 src/utility/circular_buffer.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/cache.hpp b/src/utility/cache.hpp
index 272c7d4..7bce0af 100644
--- a/src/utility/cache.hpp
+++ b/src/utility/cache.hpp
@@ -137,7 +137,7 @@ namespace gapp::detail
 
             const size_type range_len = std::distance(first, last);
             const size_type insert_count = std::min(capacity(), range_len);
-            first = std::prev(last, insert_count);
+            first = std::next(first, range_len - insert_count);
 
             for (; first != last; ++first)
             {
diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index ed6d3c3..03539f8 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -60,8 +60,9 @@ namespace gapp::detail
         {
             buffer_ = detail::allocate<T>(alloc_, capacity_).data;
             detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, capacity_); } };
-            const size_type size = std::min<size_type>(capacity, std::distance(first, last));
-            detail::construct_range(alloc_, buffer_, buffer_ + size, std::prev(last, size));
+            const size_type range_len = std::distance(first, last);
+            const size_type size = std::min(capacity, range_len);
+            detail::construct_range(alloc_, buffer_, buffer_ + size, std::next(first, range_len - size));
             size_ = size;
             guard.release();
         }
-- 
2.43.0


From 462233f927c96a15b153c806cc85ff1192b71bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 40/48] fix: queries of an empty dynamic_bitset read memory
 before its blocks

---
 src/utility/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..bc44318 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -245,7 +245,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return partial_block_size() ? (blocks_.back() & partial_block_mask()) : zeros<block_type>;
         }
     };
 
-- 
2.43.0


From fa7c158adf081941951c468fe574efb520166764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 41/48] fix: dynamic_bitset::resize did not set the new bits of
 the last old block

---
 src/utility/dynamic_bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index bc44318..4cc2c15 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -119,14 +119,14 @@ namespace gapp::detail
 
         constexpr void resize(size_type new_size, bool value = false)
         {
-            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
-
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size())
             {
                 blocks_.back() &= partial_block_mask();
                 blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
+            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
+
             size_ = new_size;
         }
 
-- 
2.43.0


From ff6f0a71dec14136359b39d868650c800b671d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 42/48] fix: the construction of a cone tree used a reference
 to a node after it was invalidated

---
 src/utility/cone_tree.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..b7057f0 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -159,11 +159,12 @@ namespace gapp::detail
                 Node left_child{ .first = node.first, .last = middle_idx };
                 Node right_child{ .first = middle_idx, .last = node.last };
 
+                node.left = nodes_.size();
+                node.right = nodes_.size() + 1;
+
+                /* This might invalidate the reference to the node. */
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
-
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 101c05869982f26c0afc0531cec98967968d8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 43/48] fix: StringFinder had an empty chromosome as its
 optimum

---
 src/problems/integer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/problems/integer.cpp b/src/problems/integer.cpp
index 06a528d..0cbf965 100644
--- a/src/problems/integer.cpp
+++ b/src/problems/integer.cpp
@@ -12,6 +12,7 @@ namespace gapp::problems
         BenchmarkFunction("StringFinder", target.size(), 1, Bounds<GeneType>{ 32, 32 + 95 }),
         target_(std::move(target))
     {
+        optimum_ = Chromosome<GeneType>(target_.begin(), target_.end());
         optimal_value_ = { double(num_vars()) };
         ideal_point_ = optimal_value_;
         nadir_point_ = optimal_value_;
-- 
2.43.0


From e747789ed83b45b11cc075373a28cfe5fba3a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 44/48] fix: the distance of stable iterators was never
 negative

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..46cc443 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return (lhs.idx_ >= rhs.idx_) ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From 48604201b91fe3fb43a0a1bd7470b39853dcdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 45/48] fix: find_all did not compile for non-random access
 forward iterators

---
 src/utility/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/algorithm.hpp b/src/utility/algorithm.hpp
index 913311e..573405d 100644
--- a/src/utility/algorithm.hpp
+++ b/src/utility/algorithm.hpp
@@ -257,7 +257,7 @@ namespace gapp::detail
         using ValueType = std::remove_cvref_t<std::iter_reference_t<Iter>>;
 
         small_vector<ValueType> result;
-        result.reserve(last - first);
+        result.reserve(std::distance(first, last));
 
         for (; first != last; ++first)
         {
-- 
2.43.0


From 0914bcf9ee3bed0750820f78fd0d3fbfdf5198b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 46/48] fix: mask_right_n was all ones for signed types

---
 src/utility/bit.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/bit.hpp b/src/utility/bit.hpp
index 3fda63a..e95c3a9 100644
--- a/src/utility/bit.hpp
+++ b/src/utility/bit.hpp
@@ -6,6 +6,7 @@
 #include "utility.hpp"
 #include <concepts>
 #include <limits>
+#include <type_traits>
 #include <climits>
 #include <cstddef>
 
@@ -60,7 +61,9 @@ namespace gapp::detail
     {
         GAPP_ASSERT(n <= bitsizeof<T>);
 
-        return n ? ones<T> >> (bitsizeof<T> - n) : zeros<T>;
+        using U = std::make_unsigned_t<T>; // the right shift must not be arithmetic
+
+        return n ? static_cast<T>(ones<U> >> (bitsizeof<T> - n)) : zeros<T>;
     }
 
     template<std::integral T>
-- 
2.43.0


From 43b82fa8ea7172646cdbca24cb2cd704995820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 47/48] fix: signed overflow in the bounds check of
 iota_iterator

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index 46cc443..1685aed 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -541,7 +541,7 @@ namespace gapp::detail
         constexpr iota_iterator& operator+=(difference_type n)
         {
             GAPP_ASSERT(n > 0 ? (std::numeric_limits<T>::max() - n) >= value_ : true, "Can't increment iterator past its max value.");
-            GAPP_ASSERT(n < 0 ? size_t(-n) <= (value_ - std::numeric_limits<T>::min()) : true, "Can't decrement iterator past its min value.");
+            GAPP_ASSERT(n < 0 ? (std::numeric_limits<T>::min() - n) <= value_ : true, "Can't decrement iterator past its min value.");
 
             value_ += n;
             return *this;
-- 
2.43.0


From a272728c4d80678bc3f2d79eaf610b93318345c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 48/48] fix: Order the epochs of RCU readers and writers with
 their accesses to the object

---
 src/utility/rcu.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..12feede 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -21,8 +21,9 @@ namespace gapp::detail
     public:
         static void read_lock() noexcept
         {
-            reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            /* The epoch must be visible to the writers before the protected pointer is loaded: either the writer sees the epoch
+             * of the reader, or the reader sees the new pointer. This needs sequential consistency on both sides. */
+            reader.epoch.store(writer_epoch.load(std::memory_order_seq_cst), std::memory_order_seq_cst);
         }
 
         static void read_unlock() noexcept
@@ -32,15 +33,15 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
-            uint64_t current = writer_epoch.load(std::memory_order_acquire);
+            uint64_t current = writer_epoch.load(std::memory_order_seq_cst);
             uint64_t target  = current + 1;
-            writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
+            writer_epoch.compare_exchange_strong(current, target, std::memory_order_seq_cst);
 
             std::shared_lock _{ tls_readers->lock };
 
             for (const registered_reader* tls_reader : tls_readers->list)
             {
-                while (tls_reader->epoch.load(std::memory_order_acquire) < target) GAPP_PAUSE();
+                while (tls_reader->epoch.load(std::memory_order_seq_cst) < target) GAPP_PAUSE();
             }
         }
 
@@ -95,7 +96,7 @@ namespace gapp::detail
         rcu_obj& operator=(U&& value)
         {
             T* new_ptr = new T(std::forward<U>(value));
-            T* old_ptr = data_.exchange(new_ptr, std::memory_order_acq_rel);
+            T* old_ptr = data_.exchange(new_ptr, std::memory_order_seq_cst);
             rcu_domain::synchronize();
             delete old_ptr;
 
@@ -108,8 +109,8 @@ namespace gapp::detail
         rcu_obj& operator=(const rcu_obj&) = delete;
         rcu_obj& operator=(rcu_obj&&)      = delete;
 
-        T& get() noexcept { return *data_.load(std::memory_order_consume); }
-        const T& get() const noexcept { return *data_.load(std::memory_order_consume); }
+        T& get() noexcept { return *data_.load(std::memory_order_seq_cst); }
+        const T& get() const noexcept { return *data_.load(std::memory_order_seq_cst); }
 
         T& operator*() noexcept { return get(); }
         const T& operator*() const noexcept { return get(); }
-- 
2.43.0

