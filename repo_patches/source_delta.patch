From 42bdc3ac415d6ac148ca07e7c20d8f9df51de065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/53] fix: IntParameter encodes every value of its range,
 rejects inverted bounds

The upper bound of ranges whose width is a power of two (e.g. 0..1, 0..4)
had no chromosome, and wide ranges overflowed int.
---
 .../k52/optimization/params/int_parameter.h   |  4 +--
 src/optimization/params/int_parameter.cpp     | 30 ++++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/k52/optimization/params/int_parameter.h b/include/k52/optimization/params/int_parameter.h
index fa0b8b4..9a9de7f 100644
--- a/include/k52/optimization/params/int_parameter.h
+++ b/include/k52/optimization/params/int_parameter.h
@@ -53,8 +53,8 @@ protected:
 
 private:
     static size_t CountChromosomeSize(int min_value, int max_value);
-    static int GetIntFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to);
-    static void SetChromosomeFromInt(ChromosomeType::iterator from, ChromosomeType::iterator to, int value);
+    static unsigned int GetIntFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to);
+    static void SetChromosomeFromInt(ChromosomeType::iterator from, ChromosomeType::iterator to, unsigned int value);
 
     int value_;
     int min_value_;
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..e89b492 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -65,7 +65,7 @@ void IntParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    IntParameter::SetChromosomeFromInt(from, to, value_ - min_value_);
+    IntParameter::SetChromosomeFromInt(from, to, (unsigned int)value_ - (unsigned int)min_value_);
 }
 
 void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
@@ -73,11 +73,16 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;
+    value_ = (int)(IntParameter::GetIntFromChromosome(from, to) + (unsigned int)min_value_);
 }
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
 {
+    if(max_value < min_value)
+    {
+        throw std::invalid_argument("max_value < min_value");
+    }
+
     SetConstChromosomeSize( CountChromosomeSize(min_value, max_value) );
 
     value_ = value;
@@ -87,18 +92,21 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
-    int target = max_value - min_value;
+    //Every value in [min_value; max_value] is encoded as its offset from min_value,
+    //so the largest offset must be representable
+    unsigned int target = (unsigned int)max_value - (unsigned int)min_value;
     size_t power = 0;
-    while(target>x)
+
+    while(target != 0)
     {
-        x*=2;
+        target /= 2;
         power++;
     }
+
     return power;
 }
 
-int IntParameter::GetIntFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
+unsigned int IntParameter::GetIntFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
 {
     unsigned int result = 0;
 
@@ -108,20 +116,20 @@ int IntParameter::GetIntFromChromosome(ChromosomeType::const_iterator from, Chro
     {
         if (*it)
         {
-            result |= (1 << bit_number);
+            result |= (1u << bit_number);
         }
         else
         {
-            result &= ~(1 << bit_number);
+            result &= ~(1u << bit_number);
         }
 
         bit_number++;
     }
 
-    return ((int)result);
+    return result;
 }
 
-void IntParameter::SetChromosomeFromInt(ChromosomeType::iterator from, ChromosomeType::iterator to, int value)
+void IntParameter::SetChromosomeFromInt(ChromosomeType::iterator from, ChromosomeType::iterator to, unsigned int value)
 {
     size_t bit_number = 0;
 
-- 
2.43.0


From 3eb1cef5251c4fad86f680c3148b8bd9635782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 02/53] fix: DoubleParameter grid covers both interval ends and
 encodes to the nearest node

The upper bound decoded to the lower one, encoding truncated so that decoded
values drifted on re-encoding, and out of range or NaN arguments reached an
undefined double to int conversion.
---
 src/optimization/params/double_parameter.cpp | 30 +++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..ac69d9b 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -1,7 +1,9 @@
 #include <k52/common/random.h>
 #include <k52/optimization/params/double_parameter.h>
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace k52
@@ -17,7 +19,7 @@ DoubleParameter::DoubleParameter()
 
 DoubleParameter::DoubleParameter(double desired_value, double min_value, double max_value, double desired_precision)
 {
-    if(max_value <= min_value)
+    if(!(max_value > min_value))
     {
         throw std::invalid_argument("maxValue <= minValue");
     }
@@ -92,13 +94,26 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
+    //The last grid node is exactly the upper bound, regardless of rounding
+    if (base_int_parameter_->get_value() == base_int_parameter_->get_max_value())
+    {
+        return max_value_;
+    }
     return  base_int_parameter_->get_value() * precision_ + min_value_;
 }
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
-    base_int_parameter_->set_value(int_value);
+    //Nearest grid node
+    double grid_value = std::floor((value - min_value_)/precision_ + 0.5);
+    if (grid_value != grid_value)
+    {
+        throw std::invalid_argument("value is not a number");
+    }
+    //Values out of int range are out of bounds as well and remain so
+    grid_value = std::min(grid_value, (double)std::numeric_limits<int>::max());
+    grid_value = std::max(grid_value, (double)std::numeric_limits<int>::min());
+    base_int_parameter_->set_value((int)grid_value);
 }
 
 double DoubleParameter::get_max_value() const
@@ -118,12 +133,12 @@ double DoubleParameter::get_actual_precision() const
 
 int DoubleParameter::GetMaxInt(double min_value, double max_value, double precision)
 {
-    int max_int = (int)std::ceil((max_value - min_value)/precision);
-    if(max_int < 1)
+    double max_int = std::ceil((max_value - min_value)/precision);
+    if(!(max_int >= 1 && max_int <= std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("minValue maxValue or precision were set incorrect");
     }
-    return max_int;
+    return (int)max_int;
 }
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
@@ -132,7 +147,8 @@ int DoubleParameter::CountBestMaxInt(int initial_max_int)
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        //All ones, so that every chromosome decodes into the interval
+        best_max_int = best_max_int*2 + 1;
     }
 
     return best_max_int;
-- 
2.43.0


From 10cff1f73f5404c808b9f97add2d4911a37dfc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 03/53] fix: DoubleParametersArray keeps its values when an
 assignment is rejected

Constraints are checked on the values themselves before they are stored.
---
 .../params/double_parameters_array.h          |  1 +
 .../params/double_parameters_array.cpp        | 30 +++++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/k52/optimization/params/double_parameters_array.h b/include/k52/optimization/params/double_parameters_array.h
index 1f4362d..b1b07c5 100644
--- a/include/k52/optimization/params/double_parameters_array.h
+++ b/include/k52/optimization/params/double_parameters_array.h
@@ -38,6 +38,7 @@ public:
 
 private:
     DoubleParametersArray();
+    bool AreWithinBounds(const std::vector<double>& values) const;
     size_t CountTotalChromosomeSize() const;
 
     DoubleParameter::shared_ptr sample_parameter_;
diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..b448e1e 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -44,15 +44,7 @@ bool DoubleParametersArray::HasSameMetaParameters(const IDiscreteParameters* par
 
 bool DoubleParametersArray::CheckConstraints() const
 {
-    for(size_t i=0; i<values_.size(); i++)
-    {
-        sample_parameter_->SetValue(values_[i]);
-        if(!sample_parameter_->CheckConstraints())
-        {
-            return false;
-        }
-    }
-    return true;
+    return AreWithinBounds(values_);
 }
 
 void DoubleParametersArray::SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
@@ -102,12 +94,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
-    values_ = values;
-
-    if (!CheckConstraints())
+    if (!AreWithinBounds(values))
     {
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
+
+    values_ = values;
 }
 
 std::vector<double> DoubleParametersArray::get_values() const
@@ -137,6 +129,20 @@ double DoubleParametersArray::get_actual_precision() const
 
 DoubleParametersArray::DoubleParametersArray() {}
 
+bool DoubleParametersArray::AreWithinBounds(const std::vector<double>& values) const
+{
+    for(size_t i=0; i<values.size(); i++)
+    {
+        bool is_within_bounds = values[i] >= sample_parameter_->get_min_value() &&
+            values[i] <= sample_parameter_->get_max_value();
+        if(!is_within_bounds)
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 size_t DoubleParametersArray::CountTotalChromosomeSize() const
 {
     return sample_parameter_->GetChromosomeSize() * values_.size();
-- 
2.43.0


From 043e63cf83b95f18c2ca9ff06188b9201c6f7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 04/53] fix: Random draws fair booleans and whole int ranges
 without overflow

The boolean bit buffer overflowed int and used a bit rand() never sets, and
the width of wide integer ranges overflowed.
---
 src/common/random.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..1df4616 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -54,7 +54,17 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
-    return rand() % (max_value-min_value+1) + min_value;
+    if ( max_value < min_value )
+    {
+        throw std::invalid_argument("max_value < min_value");
+    }
+
+    //Two draws give enough random bits for the modulo bias to be negligible for any int range
+    unsigned long long span = (unsigned long long)((long long)max_value - min_value) + 1;
+    unsigned long long base = (unsigned long long)rand() * ((unsigned long long)RAND_MAX + 1);
+    base += rand();
+
+    return (int)(min_value + (long long)(base % span));
 }
 
 bool Random::CheckEventOutcome(double event_probability)
@@ -77,11 +87,11 @@ Random::Random()
 
     for (std::size_t i = 0; i < sizeof(int) * 8; i++)
     {
-        max_bool_base_value *= 2;
-        if (max_bool_base_value > RAND_MAX)
+        if (max_bool_base_value > RAND_MAX / 2)
         {
             break;
         }
+        max_bool_base_value *= 2;
         max_bit_in_bool_base_ ++;
     }
 }
-- 
2.43.0


From 67e0dbad640d29fb824b009082bd257fdf05a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 05/53] fix: FlipBitMutator rejects NaN and handles tiny
 probabilities

1/probability was converted to int out of its range (undefined behaviour).
---
 .../genetic_algorithm/flip_bit_mutator.cpp             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
index 9819cde..54a6f62 100644
--- a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
+++ b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
@@ -1,7 +1,9 @@
 #include <k52/optimization/flip_bit_mutator.h>
 #include <k52/common/random.h>
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 using ::k52::common::Random;
@@ -15,13 +17,15 @@ FlipBitMutator::FlipBitMutator(double gen_mutation_probability)
 {
     mutation_probability_ = gen_mutation_probability;
 
-    max_number_of_skipped_gens_ = (int)std::floor(1 / mutation_probability_) - 1;
-
-    if (max_number_of_skipped_gens_ <= 0)
+    double max_number_of_skipped_gens = std::floor(1 / mutation_probability_) - 1;
+    if (!(max_number_of_skipped_gens > 0))
     {
         throw std::invalid_argument("gen_mutation_probability was set incorrectly");
     }
 
+    //Tiny probabilities exceed int range
+    max_number_of_skipped_gens_ = (int)std::min(max_number_of_skipped_gens, (double)std::numeric_limits<int>::max());
+
     SetGensToSkipNow();
 }
 
-- 
2.43.0


From 798a9b9db6fc12f35846a8f6455e0426f92136a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 06/53] fix: ThreadSafeQueue::IsEmpty did not compile when
 instantiated

---
 src/parallel/thread/thread_safe_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_safe_queue.h b/src/parallel/thread/thread_safe_queue.h
index abe5930..1597d56 100644
--- a/src/parallel/thread/thread_safe_queue.h
+++ b/src/parallel/thread/thread_safe_queue.h
@@ -35,7 +35,7 @@ public:
 
 private:
     std::queue<TElement> queue_;
-    boost::mutex mutex_;
+    mutable boost::mutex mutex_;
     boost::condition_variable condition_variable_;
 
     DISALLOW_COPY_AND_ASSIGN(ThreadSafeQueue);
-- 
2.43.0


From a3a2825c645c11665fd00c6b669fec6e0c191a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 07/53] fix: Mexican hat normalisation divides by pi^(1/4)

The wavelet had energy pi instead of 1.
---
 src/dsp/mhat_wavelet_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/mhat_wavelet_function.cpp b/src/dsp/mhat_wavelet_function.cpp
index 536aeca..8d319be 100644
--- a/src/dsp/mhat_wavelet_function.cpp
+++ b/src/dsp/mhat_wavelet_function.cpp
@@ -11,7 +11,7 @@ namespace k52
 namespace dsp
 {
 
-MhatWaveletFunction::MhatWaveletFunction() : k_(2./std::sqrt(3. * kDefaultSigma) * std::pow(M_PI, 0.25))
+MhatWaveletFunction::MhatWaveletFunction() : k_(2./std::sqrt(3. * kDefaultSigma) * std::pow(M_PI, -0.25))
 {
 }
 
-- 
2.43.0


From 2ee05a45f93eb273d98438e1ac42c637b717f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 08/53] fix: AkimaSpline rejects NaN arguments instead of
 reading out of bounds

---
 src/dsp/akima_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 1c5401d..536eb7d 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -128,7 +128,8 @@ std::size_t AkimaSpline::ResolveInterval(double x) const
     if (upper_bound == train_x_.end())
     {
         std::vector<double>::const_iterator lower_bound = std::lower_bound(train_x_.begin(), train_x_.end(), x);
-        if (lower_bound == train_x_.end())
+        // lower_bound is at the very beginning only for NaN or unordered training points
+        if (lower_bound == train_x_.end() || lower_bound == train_x_.begin())
         {
             throw std::out_of_range("X value is out of range in Akima spline");
         }
-- 
2.43.0


From 4a74b4f6bcd0fe68aca33061a7fa93fa579d4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 09/53] fix: spline based wavelets are defined on all of [-4,
 4] and reject empty data

Rounding of the last knot below 4 made evaluation at 4 throw for about a
quarter of all sizes; empty input was read out of bounds.
---
 src/dsp/spline_based_wavelet_function.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..a9d52ae 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -3,6 +3,7 @@
 // standart headers
 #include <algorithm>
 #include <stdint.h>
+#include <stdexcept>
 #include <vector>
 
 namespace k52
@@ -17,6 +18,11 @@ std::complex<double> SplineBased::GetValue(double t)
 
 void SplineBased::Init(const std::vector<double> &real, const std::vector<double> &imaj)
 {
+    if (real.empty())
+    {
+        throw std::invalid_argument("At least one point is required to initialize spline based wavelet");
+    }
+
     std::vector<double> points(real.size() + 2);
     double delta = 8. / real.size();
     for (size_t i = 0; i < real.size(); ++i)
@@ -30,7 +36,8 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    // Exactly the end of effective part of the wavelet, rounding must not leave it uncovered
+    points[size - 1] = 4;
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From 504cc2dfd6ed82ca2ea0af16ac378e1ca52521f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 10/53] fix: thread pool reports task exceptions to the
 submitter instead of hanging

---
 src/parallel/thread/thread_worker_pool.cpp    | 12 +++++++++++-
 .../thread/thread_worker_pool_task.cpp        | 19 +++++++++++++++----
 src/parallel/thread/thread_worker_pool_task.h |  6 +++++-
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..24ef34f 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -20,14 +20,24 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     CheckAvailableWorkers();
 
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
+    std::vector< boost::exception_ptr > exceptions(tasks.size());
     std::queue<ThreadWorkerPoolTask> tasks_queue;
 
     for(size_t i=0; i<tasks.size(); i++)
     {
-        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
+        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i]), &(exceptions[i])));
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<exceptions.size(); i++)
+    {
+        if(exceptions[i])
+        {
+            boost::rethrow_exception(exceptions[i]);
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/thread_worker_pool_task.cpp b/src/parallel/thread/thread_worker_pool_task.cpp
index 46174b3..b221a44 100644
--- a/src/parallel/thread/thread_worker_pool_task.cpp
+++ b/src/parallel/thread/thread_worker_pool_task.cpp
@@ -8,16 +8,27 @@ namespace thread
 {
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask()
-    :task_to_do_(NULL), result_to_be_written_(NULL) {}
+    :task_to_do_(NULL), result_to_be_written_(NULL), exception_to_be_written_(NULL) {}
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask(
     const ITask* task_to_do,
-    ITaskResult::shared_ptr* result_to_be_written)
-        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written) {}
+    ITaskResult::shared_ptr* result_to_be_written,
+    boost::exception_ptr* exception_to_be_written)
+        :task_to_do_(task_to_do),
+        result_to_be_written_(result_to_be_written),
+        exception_to_be_written_(exception_to_be_written) {}
 
 void ThreadWorkerPoolTask::DoTask()
 {
-    (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    //Task must always be reported as done, otherwise its submitter would wait forever
+    try
+    {
+        (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    }
+    catch(...)
+    {
+        (*exception_to_be_written_) = boost::current_exception();
+    }
 }
 
 } /* namespace thread */
diff --git a/src/parallel/thread/thread_worker_pool_task.h b/src/parallel/thread/thread_worker_pool_task.h
index 868dadf..18f7b03 100644
--- a/src/parallel/thread/thread_worker_pool_task.h
+++ b/src/parallel/thread/thread_worker_pool_task.h
@@ -1,6 +1,8 @@
 #ifndef THREADWORKERPOOLTASK_H_
 #define THREADWORKERPOOLTASK_H_
 
+#include <boost/exception_ptr.hpp>
+
 #include <k52/parallel/i_worker_pool.h>
 
 namespace k52
@@ -17,13 +19,15 @@ public:
 
     ThreadWorkerPoolTask(
         const ITask* task_to_do,
-        ITaskResult::shared_ptr* result_to_be_written);
+        ITaskResult::shared_ptr* result_to_be_written,
+        boost::exception_ptr* exception_to_be_written);
 
     void DoTask();
 
 private:
     const ITask* task_to_do_;
     ITaskResult::shared_ptr* result_to_be_written_;
+    boost::exception_ptr* exception_to_be_written_;
 };
 
 } /* namespace thread */
-- 
2.43.0


From 3aa78ceea0ff35d5172e0cb5c960b977d36dddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 11/53] fix: concurrent submitters of one thread pool wait for
 their own tasks

---
 src/parallel/thread/thread_worker_pool_templated.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..471860c 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -28,6 +28,7 @@ private:
 
     int number_of_workers_;
     Worker<TTask>* workers_;
+    boost::mutex do_tasks_mutex_;
     ThreadSafeQueue<TTask> tasks_to_do_;
     ThreadSafeQueue<TTask> done_tasks_;
 
@@ -74,6 +75,9 @@ int ThreadWorkerPoolTemplated<TTask>::get_number_of_workers() const
 template <class TTask>
 void ThreadWorkerPoolTemplated<TTask>::DoTasks(std::queue<TTask> tasks)
 {
+    //Done tasks do not know their submitter, so concurrent submitters would take each other's ones
+    boost::mutex::scoped_lock lock(do_tasks_mutex_);
+
     int n = tasks.size();
 
     while(!tasks.empty())
-- 
2.43.0


From b2b02fe73b315a04a2228045f0828d0d87607499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 12/53] fix: Cache drops used values too instead of throwing
 when its limit is reached

---
 include/k52/common/cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..6070dfa 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -127,9 +127,10 @@ void Cache<TKey, TValue>::ClearCacheUpToLimit()
         ClearUnusedCacheValues(number_of_min_usage);
     }
 
+    //All the values are in use, but the limit must be respected anyway
     if (IsSizeLimitExceeded())
     {
-        throw std::runtime_error("Unable to clear cache up to limit");
+        cache_map_.clear();
     }
 }
 
-- 
2.43.0


From 2c5c44e55f7e196d6d0ba056ae0cb5fc05f7293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 13/53] fix: GeneticAlgorithm rejects initial parameters of
 wrong size instead of reading past them

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..4be392e 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,6 +144,11 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
+    if (initial_parameters.size() != population_size_)
+    {
+        throw std::invalid_argument("Initial parameters must have same size as population.");
+    }
+
     initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
 
     for (std::size_t i = 0; i < population_size_; ++i)
-- 
2.43.0


From ed11cd687d96f7c76f0de7358c2d9bef35bf8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 14/53] fix: crossover of empty chromosomes divided by zero

---
 src/optimization/genetic_algorithm/individual.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..8e0cc96 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -238,7 +238,12 @@ void Individual::BoolCrossover(ChromosomeType *first, ChromosomeType *second)
         throw std::invalid_argument("For crossover chromosomes must have same size");
     }
 
-    int crossover_point = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);
+    if(first->empty())
+    {
+        return;
+    }
+
+    int crossover_point =Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);
 
     for(size_t i = crossover_point; i < first->size(); i++)
     {
-- 
2.43.0


From 52aceaaa2bb08492e4eb61df24bec78e858017f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 15/53] fix: LinearMutator probability for the only generation
 was 0/0

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..6433f88 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -25,6 +25,11 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
+    if (max <= 0)
+    {
+        //The only generation is the start one
+        return start_mutation_value_;
+    }
     return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
 }
 }/* namespace optimization */
-- 
2.43.0


From f68dd63b914f771b1c82e1f15d7568fcdb09db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 16/53] fix: GeneticAlgorithm does not reuse fitness cached for
 another objective function

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 3 +++
 src/optimization/objective_function_counter.cpp          | 8 +++++++-
 src/optimization/objective_function_counter.h            | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 4be392e..e12ba96 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -128,6 +128,9 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
         throw std::invalid_argument("GeneticAlgorithm currently can only maximize function.");
     }
 
+    //Cached values belong to the function and parameters of the previous run
+    fitness_counter_->ResetCache();
+
     Initialize(parameters_to_optimize);
 
     if(!population_file_name_.empty())
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..b891ff2 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -17,7 +17,8 @@ ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_me
 {
     cache_hits_ = 0;
     objective_function_counts_ = 0;
-    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
+    ResetCache();
 
 #ifdef BUILD_WITH_MPI
     CountObjectiveFunctionTask task;
@@ -65,6 +66,11 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..6f71d1b 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,7 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    void ResetCache();
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
@@ -64,6 +65,7 @@ protected:
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
+    double cache_data_limit_in_megabytes_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
-- 
2.43.0


From c21b698f4e72a72f52dd6ce136b8d616f16daf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 17/53] fix: bounded Nelder-Mead returns its best vertex
 instead of the worst one

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From d622c71c0f2c2619a4693bc6cd086dcea829a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 18/53] fix: bounded Nelder-Mead recounts function values after
 reduction

---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
-- 
2.43.0


From e8d45d518f4312cfcb53094b8d6eb2ab132848f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 19/53] fix: bounded Nelder-Mead forgets polygons of previous
 runs

---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..51bf0c7 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -71,6 +71,9 @@ void BoundedNelderMead::Receive(boost::mpi::communicator* communicator, int sour
 
 std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<double>& initial_parameters)
 {
+    //Polygons of previous runs are irrelevant for loop detection
+    previous_polygons_.clear();
+
     //Iteration index
     size_t r = 0;
 
-- 
2.43.0


From 3046ca8a483b746eca5bf5d350977ccb9ddf9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 20/53] fix: bounded Nelder-Mead keeps its initial simplex
 within bounds

---
 .../k52/optimization/bounded_nelder_mead.h    |  2 +
 src/optimization/bounded_nelder_mead.cpp      | 49 ++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/include/k52/optimization/bounded_nelder_mead.h b/include/k52/optimization/bounded_nelder_mead.h
index b979972..2e54e02 100644
--- a/include/k52/optimization/bounded_nelder_mead.h
+++ b/include/k52/optimization/bounded_nelder_mead.h
@@ -40,6 +40,8 @@ protected:
 
     void CorrectByProjectingToBounds(std::vector<double>* point);
 
+    void FitSimplexToBounds(std::vector< std::vector<double> >* simplex);
+
     std::vector<double> CountObjectiveFunctionValues(
         const std::vector< std::vector<double> >& parameters_values);
 
diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 51bf0c7..87d2d1c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -78,7 +78,10 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     size_t r = 0;
 
     //Build simplex based on initial_parameters
-    vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
+    vector<double> base_point = initial_parameters;
+    CorrectByProjectingToBounds(&base_point);
+    vector< vector<double> > polygon = GetRegularSimplex(base_point, l_);
+    FitSimplexToBounds(&polygon);
 
     //count values
     vector<double> function_values = CountObjectiveFunctionValues(polygon);
@@ -184,6 +187,50 @@ void BoundedNelderMead::CorrectByProjectingToBounds(vector<double>* point)
     }
 }
 
+void BoundedNelderMead::FitSimplexToBounds(vector< vector<double> >* simplex)
+{
+    const vector<double> base_point = (*simplex)[0];
+
+    for(size_t j = 0; j < base_point.size(); j++)
+    {
+        double max_offset = 0;
+        bool is_within_bounds = true;
+
+        for(size_t i = 1; i < simplex->size(); i++)
+        {
+            double value = (*simplex)[i][j];
+            max_offset = std::max(max_offset, std::fabs(value - base_point[j]));
+            is_within_bounds = is_within_bounds && value >= lower_bound_ && value <= upper_bound_;
+        }
+
+        if(is_within_bounds || max_offset == 0)
+        {
+            continue;
+        }
+
+        //Direct the simplex to the farthest bound, and squeeze it if it does not fit even there
+        double room_to_lower = base_point[j] - lower_bound_;
+        double room_to_upper = upper_bound_ - base_point[j];
+        double room = std::max(room_to_lower, room_to_upper);
+        double scale = std::min(1., room / max_offset);
+        if(room_to_lower > room_to_upper)
+        {
+            scale = -scale;
+        }
+
+        for(size_t i = 1; i < simplex->size(); i++)
+        {
+            (*simplex)[i][j] = base_point[j] + scale * std::fabs((*simplex)[i][j] - base_point[j]);
+        }
+    }
+
+    //Rounding must not bring vertices out of bounds
+    for(size_t i = 0; i < simplex->size(); i++)
+    {
+        CorrectByProjectingToBounds(&(*simplex)[i]);
+    }
+}
+
 vector<double> BoundedNelderMead::CountObjectiveFunctionValues(
     const vector< vector<double> >& parameters_values)
 {
-- 
2.43.0


From 4a836bfc9b46fb5ba2720c92f8e743b94b66939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 21/53] fix: steepest descent searches for the step within the
 localized border

---
 src/optimization/steepest_descent_method.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..fa006a9 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -279,13 +279,8 @@ double SteepestDescentMethod::Localization(
         
     } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
 
-    double final_step = 0;
-    for (size_t i = 0; i < next_step_point.size(); ++i)
-    {
-        final_step += (next_step_point[i] - init_parameters[i])*(next_step_point[i] - init_parameters[i]);
-    }
-
-    return sqrt(final_step);
+    //Border is measured along not normalized direction, the same way as in FindStepLength
+    return step;
 }
 
 }//optimization
-- 
2.43.0


From 31d2b7f024e46c0174e2351c3ee6f380fa73d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 22/53] fix: steepest descent stops on plateaus and at optimum,
 returns the point it has reached

---
 src/optimization/steepest_descent_method.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index fa006a9..ee2ac91 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -74,6 +74,12 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     double lambda = 1; 
 
     vector<double> next_step_parameters(parameters);
+    if (IsExitCriteriaFulfilled(parameters))
+    {
+        //There is no direction to search in
+        return parameters;
+    }
+
     do
     {
         parameters = next_step_parameters;
@@ -91,7 +97,7 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     } while (!IsExitCriteriaFulfilled(next_step_parameters) 
         && !(counter == max_iteration_number_));
 
-    return parameters;
+    return next_step_parameters;
 }
 
 bool SteepestDescentMethod::IsExitCriteriaFulfilled(
@@ -277,7 +283,7 @@ double SteepestDescentMethod::Localization(
         }
 
         
-    } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
+    } while (CountObjectiveFunctionValueToMinimize(next_step_point) < CountObjectiveFunctionValueToMinimize(point));
 
     //Border is measured along not normalized direction, the same way as in FindStepLength
     return step;
-- 
2.43.0


From 75d310fddab195de6a97e06b5c19bc860b0f135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 23/53] fix: conjugate gradient starts at optimum without an
 exception, respects small iteration limits

---
 .../optimization/conjugate_gradient_method.h  |  2 ++
 .../conjugate_gradient_method.cpp             | 34 +++++++++++--------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/k52/optimization/conjugate_gradient_method.h b/include/k52/optimization/conjugate_gradient_method.h
index a0a41b1..528027b 100644
--- a/include/k52/optimization/conjugate_gradient_method.h
+++ b/include/k52/optimization/conjugate_gradient_method.h
@@ -51,6 +51,8 @@ protected:
         const std::vector<double>& parameters,
         const std::vector<double>& search_direction);
 
+    static double CalculateNorm(const std::vector<double>& gradient);
+
     double CalculateWeightingCoefficient(
         const std::vector<double>& gradient,
         const std::vector<double>& previous_gradient);
diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..79a9b06 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -11,11 +11,9 @@
 #include <stdexcept>
 #include <iostream>
 
-#include <k52/common/floating_point.h>
 #include <k52/optimization/params/i_continuous_parameters.h>
 
 using ::std::vector;
-using ::k52::common::FloatingPoint;
 
 namespace k52
 {
@@ -76,11 +74,11 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
     vector<double> previous_search_direction(parameters.size());
 
     double weighting_coefficient = 0;
-    double exit = 0;
+    double exit = CalculateNorm(gradient);
     size_t iteration = 1;
 
     //http://en.wikipedia.org/wiki/Nonlinear_conjugate_gradient_method
-    do
+    while (exit >= precision_ && exit > 0)
     {
         previous_search_direction = search_direction;
         search_direction = FindNextSearchDirection(gradient, previous_search_direction, weighting_coefficient, iteration);
@@ -97,25 +95,30 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
 
         weighting_coefficient = CalculateWeightingCoefficient(gradient, previous_gradient);
 
-        //TODO use vector math
-        exit = 0;
-        for (size_t i = 0; i<parameters.size(); i++)
-        {
-            exit += pow(gradient[i], 2);
-        }
-        exit = sqrt(exit);
+        exit = CalculateNorm(gradient);
 
         iteration++;
-        if (iteration == number_of_iterations_)
+        if (iteration >= number_of_iterations_)
         {
             std::cout << "Solution not found" << std::endl;
             break;
         }
-    } while (exit >= precision_);
+    }
 
     return parameters;
 }
 
+double ConjugateGradientMethod::CalculateNorm(const vector<double>& gradient)
+{
+    //TODO use vector math
+    double square_norm = 0;
+    for (size_t i = 0; i<gradient.size(); i++)
+    {
+        square_norm += pow(gradient[i], 2);
+    }
+    return sqrt(square_norm);
+}
+
 double ConjugateGradientMethod::CountCorrectedObjectiveFunctionValue(
     const vector<double>& parameters)
 {
@@ -221,9 +224,10 @@ double ConjugateGradientMethod::CalculateWeightingCoefficient(
         previous_gradient_square += pow(previous_gradient[i], 2);
     }
 
-    if(FloatingPoint::IsZero(previous_gradient_square))
+    //Small gradients are fine, division by exact zero is not
+    if(previous_gradient_square == 0)
     {
-        throw std::runtime_error("previous_gradient_square == 0");
+        return 0;
     }
 
     return gradient_square / previous_gradient_square;
-- 
2.43.0


From 9406aa9ce9f629631d374389fe989625115954ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 24/53] fix: conjugate gradient bounds its one-dimensional
 search and never steps to infinity

---
 src/optimization/conjugate_gradient_method.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 79a9b06..b8f1b3d 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -178,6 +178,7 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
     const vector<double>& search_direction)
 {
     double x = 0, previous_x=0;
+    size_t iteration = 0;
 
     //Using Newton method to find one-dim minimum
     do
@@ -203,8 +204,16 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
         double dirivative = (f_incremented - f_decremented)/increment_of_the_argument_;
         double secound_derivative = (f_incremented - 2*f + f_decremented) / (increment_of_the_argument_*increment_of_the_argument_/4);
 
-        x = previous_x - dirivative/secound_derivative;
-    } while(std::abs(previous_x - x) > precision_);
+        double step = dirivative/secound_derivative;
+        if (step - step != 0)
+        {
+            //Newton method is not applicable further, step is infinite or not a number
+            break;
+        }
+
+        x = previous_x - step;
+        iteration++;
+    } while(std::abs(previous_x - x) > precision_ && iteration < number_of_iterations_);
     return x;
 }
 
-- 
2.43.0


From 965f0fec93af69192229859a10becdc8b5d787c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 25/53] fix: steepest descent compared absolute values
 truncated to int with its precision

---
 src/optimization/steepest_descent_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ee2ac91..8381f9f 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -249,7 +249,7 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((abs(left_border - right_border) > precision_));
+    } while ((std::abs(left_border - right_border) > precision_));
 
     return (left_border + right_border) / 2;
 }
@@ -269,7 +269,7 @@ double SteepestDescentMethod::Localization(
             point[i] = init_parameters[i] + step*direction[i];
         }       		
     } while ((CountObjectiveFunctionValueToMinimize(point) > CountObjectiveFunctionValueToMinimize(init_parameters))
-        && (abs(step) > precision_));
+        && (std::abs(step) > precision_));
 
 
     vector<double> next_step_point(point);
-- 
2.43.0


From 5a3b2e5c65effbcca2917b66f0a982f541eb2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 26/53] fix: random search without points rejects them for
 inner optimizer too instead of reading out of bounds

---
 src/optimization/optimization_parameters_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..8312f27 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,11 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
+
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 87b9d1d0b1133b28ab56c346e366e2b655f01cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 27/53] fix: chromosomes are sent over MPI with any boost
 version

---
 src/optimization/params/discrete_parameters.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/discrete_parameters.cpp b/src/optimization/params/discrete_parameters.cpp
index ff4d7b5..604c5dc 100644
--- a/src/optimization/params/discrete_parameters.cpp
+++ b/src/optimization/params/discrete_parameters.cpp
@@ -17,14 +17,17 @@ void DiscreteParameters::Send(boost::mpi::communicator* communicator, int target
     //TODO to optimize performance do not create intermediate chromosome
     ChromosomeType intermediate_chromosome = ChromosomeType(this->GetChromosomeSize());
     this->SetChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
-    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    //std::vector<bool> is not a real array, so it can not be transferred as it is
+    std::vector<char> intermediate_genes(intermediate_chromosome.begin(), intermediate_chromosome.end());
+    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, intermediate_genes);
 }
 
 void DiscreteParameters::Receive(boost::mpi::communicator* communicator, int source)
 {
     //TODO to optimize performance do not create intermediate chromosome
-    ChromosomeType intermediate_chromosome;
-    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    std::vector<char> intermediate_genes;
+    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, intermediate_genes);
+    ChromosomeType intermediate_chromosome(intermediate_genes.begin(), intermediate_genes.end());
     this->SetFromChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
 }
 
-- 
2.43.0


From 9e2c7d660cc6a854c45531e61eef86685be8b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 28/53] fix: reject a repeated CompositeDiscreteParameters
 initialization before changing its parts

---
 .../params/composite_discrete_parameters.cpp           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..b454473 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,6 +81,9 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
+    //A repeated initialization is rejected before anything is changed
+    initialization_checker_.SetInitialized();
+
     parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
 
     for(size_t i=0; i<parameters_set_.size(); i++)
@@ -89,12 +92,13 @@ void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParamete
     }
 
     this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
+    //A repeated initialization is rejected before anything is changed
+    initialization_checker_.SetInitialized();
+
     parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
 
     for(size_t i=0; i<parameters_set_.size(); i++)
@@ -103,8 +107,6 @@ void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_p
     }
 
     this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
-- 
2.43.0


From 0ebf3b7bde84eb25f1c91be293f913796ff1ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 29/53] fix: parameter index of the largest value is out of
 range in CompositeDiscreteParameters

---
 src/optimization/params/composite_discrete_parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b454473..48d5727 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -120,7 +120,7 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
 {
     initialization_checker_.InitializationCheck();
 
-    if(index+1 > parameters_set_.size())
+    if(index >= parameters_set_.size())
     {
         throw std::out_of_range("index in getParameter method is out of range");
     }
-- 
2.43.0


From 6756a2d8c82fe5d5579dbac1f417b0cf9dbe4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 30/53] fix: an individual rejected because of its fitness is
 not left with another chromosome

---
 src/optimization/genetic_algorithm/individual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 8e0cc96..af7928e 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -302,8 +302,9 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
+    //Inappropriate fitness is rejected before the chromosome is changed
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
-- 
2.43.0


From 132ee977e66315489f9e7ce595a7bbd92953a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 31/53] fix: statistics of a repeated GA run do not include
 leftovers of the previous run

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index e12ba96..183c689 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -131,6 +131,10 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
     //Cached values belong to the function and parameters of the previous run
     fitness_counter_->ResetCache();
 
+    //So do the statistics
+    fitness_counter_->ResetCacheHits();
+    invalid_chromosomes_ = 0;
+
     Initialize(parameters_to_optimize);
 
     if(!population_file_name_.empty())
-- 
2.43.0


From 61eb2729ea8dc6ceae6b33781860bbb1a6c1e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 32/53] fix: interpolated probability of LinearMutator does not
 exceed one by rounding

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 6433f88..21f36ab 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include <k52/common/random.h>
 #include <k52/optimization/linear_mutator.h>
@@ -30,7 +31,11 @@ double LinearMutator::GetCurrentGenMutationProbability()
         //The only generation is the start one
         return start_mutation_value_;
     }
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    double probability = (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+
+    //Rounding must not lead out of the interval
+    probability = std::max(probability, std::min(start_mutation_value_, end_mutation_value_));
+    return std::min(probability, std::max(start_mutation_value_, end_mutation_value_));
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From a211f24b9f08e45fa5e547626378bc5aea8dd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 33/53] fix: grid search implements the optimizer interface and
 can minimise

---
 include/k52/optimization/grid_search.h |  5 +++--
 src/optimization/grid_search.cpp       | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/k52/optimization/grid_search.h b/include/k52/optimization/grid_search.h
index 5f052b6..3a9c57d 100644
--- a/include/k52/optimization/grid_search.h
+++ b/include/k52/optimization/grid_search.h
@@ -20,7 +20,8 @@ public:
 
     virtual void Optimize(
         const IObjectiveFunction& function_to_optimize,
-        IParameters* parameters_to_optimize);
+        IParameters* parameters_to_optimize,
+        bool maximize);
 
     ///Creates deep clone of an object with resource allocation. See ICloneable
     ///@return deep clone of an object
@@ -31,7 +32,7 @@ public:
 #ifdef BUILD_WITH_MPI
     virtual void Send(boost::mpi::communicator* communicator, int target) const;
 
-    virtual void Receive(boost::mpi::communicator* communicator);
+    virtual void Receive(boost::mpi::communicator* communicator, int source);
 #endif
 
 protected:
diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 90caa05..e055ca8 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -23,7 +23,9 @@ GridSearch::GridSearch(double precision, double lower_bound, double upper_bound)
     precision_ = precision;
 }
 
-void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParameters* parameters_to_optimize)
+void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize,
+    IParameters* parameters_to_optimize,
+    bool maximize)
 {
     IContinuousParameters* continuous_parameters = dynamic_cast<IContinuousParameters*> (parameters_to_optimize);
     if(!continuous_parameters)
@@ -64,7 +66,10 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParam
     }
 
     vector<double> counted_values = fitness_counter_->CountObjectiveFunctionValues(parameters, function_to_optimize);
-    size_t best_index = std::distance(counted_values.begin(), max_element(counted_values.begin(), counted_values.end()));
+    vector<double>::const_iterator best_value = maximize ?
+        std::max_element(counted_values.begin(), counted_values.end()) :
+        std::min_element(counted_values.begin(), counted_values.end());
+    size_t best_index = std::distance(vector<double>::const_iterator(counted_values.begin()), best_value);
 
     continuous_parameters->SetValues( parameters_storages[best_index]->GetValues() );
 }
@@ -85,7 +90,7 @@ void GridSearch::Send(boost::mpi::communicator* communicator, int target) const
     throw std::logic_error("Send is not implemented for GridSearch");
 }
 
-void GridSearch::Receive(boost::mpi::communicator* communicator)
+void GridSearch::Receive(boost::mpi::communicator* communicator, int source)
 {
     throw std::logic_error("Receive is not implemented for GridSearch");
 }
-- 
2.43.0


From 8537ad6bc39d4eef199bde5b931028b1adf276f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 34/53] fix: grid search refuses zero and NaN precision without
 undefined conversion

---
 src/optimization/grid_search.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index e055ca8..c582fb5 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -1,6 +1,7 @@
 #include <k52/optimization/grid_search.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <algorithm>
 
@@ -35,13 +36,15 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize,
 
     vector<double> initial_parameters = continuous_parameters->GetValues();
 
-    int size_per_parameter = (int)std::floor((upper_bound_ - lower_bound_)/precision_) + 1;
+    double steps_per_parameter = std::floor((upper_bound_ - lower_bound_)/precision_);
 
-    if(size_per_parameter <= 0)
+    if(!(steps_per_parameter >= 0 && steps_per_parameter < std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("upperBound, lowerBound, or precision was set incorrect");
     }
 
+    int size_per_parameter = (int)steps_per_parameter + 1;
+
     size_t number_of_parameters = initial_parameters.size();
     size_t total_size = IntegerPow(size_per_parameter, number_of_parameters);
 
-- 
2.43.0


From 0f36b4811849a9bdce64ae63494432dee54c25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 35/53] fix: Hooke-Jeeves does not follow patterns made of
 rounding errors instead of refining its steps

---
 src/optimization/hooke_jeeves_method.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 5d8b562..2ece89a 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -107,8 +107,17 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             {
                 break;
             }
+            bool is_same_point = common::FloatingPoint::AreEqual(
+                arguments_after_search, next_step_arguments_after_search);
             arguments_after_search = next_step_arguments_after_search;
 
+            if (is_same_point)
+            {
+                //Improvement is caused by rounding only, there is no pattern to follow
+                arguments = arguments_after_search;
+                break;
+            }
+
             iteration++;
             // Check number of iterations
             if (iteration == max_iteration_number_)
-- 
2.43.0


From 7e616aaab8d36d37b01bd52244845beea8bfd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 36/53] fix: Nelder-Mead contraction does not leave the bounds
 by rounding

---
 src/optimization/bounded_nelder_mead.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 87d2d1c..e642d0d 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -148,6 +148,8 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 }
 
                 vector<double> contraction_point = Contraction(center_of_mass, polygon[first_max_index]);
+                //Center of mass may leave the bounds by rounding
+                CorrectByProjectingToBounds(&contraction_point);
                 double contraction_point_value = CountSingleObjectiveFunctionValue(contraction_point);
 
                 if (contraction_point_value > highest_value)
-- 
2.43.0


From cffc18a4f52d89df1324be657283b120f4a45215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 37/53] fix: MPI pool refuses foreign tasks before it sends the
 others

---
 src/parallel/mpi/mpi_worker_pool.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..501c206 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -62,10 +62,16 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
     std::list<ResultExpectation> result_expectations;
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
 
+    //An unsuitable task must be found before anything is sent to the workers
+    std::vector< const IMpiTask* > mpi_tasks(tasks.size());
     for(size_t i = 0; i < tasks.size(); i++)
     {
-        const IMpiTask* current_task = GetMpiTask(tasks[i]);
-        ResultExpectation task_expectation = SendTask(current_task, current_worker_rank, &(results[i]));
+        mpi_tasks[i] = GetMpiTask(tasks[i]);
+    }
+
+    for(size_t i = 0; i < tasks.size(); i++)
+    {
+        ResultExpectation task_expectation = SendTask(mpi_tasks[i], current_worker_rank, &(results[i]));
         result_expectations.push_back( task_expectation );
 
         if(!was_first_part_sent)
-- 
2.43.0


From 23721bcc990ea7c6a97edddf8704d86f0c30a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 38/53] fix: settings with names ending in a dot are refused
 instead of aborting the process

---
 include/k52/common/settings_manager.h   | 11 +++++++++++
 include/k52/common/settings_manager.inl |  1 +
 2 files changed, 12 insertions(+)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index a47208e..b5001fc 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -77,11 +77,22 @@ protected:
                 std::string argument_name(argument.substr(0, argument.find("=")));
                 std::string argument_value(argument.substr(argument.find("=") + 1));
 
+                ValidatePropertyName(argument_name);
                 property_tree_.put(argument_name, argument_value);
             }
         }
     }
 
+    /// @brief Path of a property must not end with an empty part, the underlying tree can not hold it
+    /// @param property name
+    static void ValidatePropertyName(const std::string& property_name)
+    {
+        if (!property_name.empty() && '.' == property_name[property_name.length() - 1])
+        {
+            throw std::invalid_argument("Incorrect property name: " + property_name);
+        }
+    }
+
     /// @brief Load configuration from xml
     /// @param filename - xml file to be loaded
     /// @return true if configuration loading succeeded
diff --git a/include/k52/common/settings_manager.inl b/include/k52/common/settings_manager.inl
index 85c03d9..348e551 100644
--- a/include/k52/common/settings_manager.inl
+++ b/include/k52/common/settings_manager.inl
@@ -33,6 +33,7 @@ template <class PropertyType>
 bool SettingsManager::put(const std::string& property_name, const PropertyType& property_value)
 try
 {
+    ValidatePropertyName(property_name);
     property_tree_.put(property_name, property_value);
     return true;
 }
-- 
2.43.0


From 93e8411412229fb7e4108d92db9b0fb59ee3385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 39/53] fix: gen mutator has a defined context before the first
 ApplyNewMutationContext

---
 include/k52/optimization/gen_mutator_base.h             | 2 ++
 src/optimization/genetic_algorithm/gen_mutator_base.cpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/k52/optimization/gen_mutator_base.h b/include/k52/optimization/gen_mutator_base.h
index aa16445..c484c9e 100644
--- a/include/k52/optimization/gen_mutator_base.h
+++ b/include/k52/optimization/gen_mutator_base.h
@@ -11,6 +11,8 @@ namespace optimization
 class GenMutatorBase : public IMutator
 {
 public:
+    GenMutatorBase();
+
     virtual void ApplyNewMutationContext(const MutationContext &mutation_context);
     virtual void MutateChromosome(ChromosomeType *chromosome);
 
diff --git a/src/optimization/genetic_algorithm/gen_mutator_base.cpp b/src/optimization/genetic_algorithm/gen_mutator_base.cpp
index afb080c..2831c51 100644
--- a/src/optimization/genetic_algorithm/gen_mutator_base.cpp
+++ b/src/optimization/genetic_algorithm/gen_mutator_base.cpp
@@ -8,6 +8,13 @@ namespace k52
 namespace optimization
 {
 
+GenMutatorBase::GenMutatorBase()
+{
+    //Until a context is applied mutator behaves as at the very first generation
+    mutation_context_.current_generation = 0;
+    mutation_context_.max_number_of_generations = 1;
+}
+
 void GenMutatorBase::ApplyNewMutationContext(const MutationContext &mutation_context)
 {
     mutation_context_ = mutation_context;
-- 
2.43.0


From 9855e6af17daf40895a84bdb4772567bc4563b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 40/53] fix: default constructed DoubleParameter throws instead
 of dereferencing null

---
 .../optimization/params/double_parameter.h    |  3 +++
 src/optimization/params/double_parameter.cpp  | 21 +++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/k52/optimization/params/double_parameter.h b/include/k52/optimization/params/double_parameter.h
index 43639fc..ba178ca 100644
--- a/include/k52/optimization/params/double_parameter.h
+++ b/include/k52/optimization/params/double_parameter.h
@@ -41,6 +41,9 @@ protected:
     static int CountBestMaxInt(int initial_max_int);
     bool CheckBounds(double value) const;
 
+    ///@throws std::logic_error if the parameter was only default constructed
+    IntParameter& CheckedBaseParameter() const;
+
 private:
     IntParameter::shared_ptr base_int_parameter_;
     double min_value_;
diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index ac69d9b..26f53f8 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -74,7 +74,7 @@ bool DoubleParameter::HasSameMetaParameters(const IDiscreteParameters* parameter
     return max_value_ == double_parameter->max_value_ &&
         min_value_ == double_parameter->min_value_ && 
         precision_ == double_parameter->precision_ &&
-        base_int_parameter_->HasSameMetaParameters(double_parameter->base_int_parameter_.get());
+        CheckedBaseParameter().HasSameMetaParameters(&double_parameter->CheckedBaseParameter());
 }
 
 bool DoubleParameter::CheckConstraints() const
@@ -84,22 +84,22 @@ bool DoubleParameter::CheckConstraints() const
 
 void DoubleParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
 {
-    base_int_parameter_->SetChromosome(from, to);
+    CheckedBaseParameter().SetChromosome(from, to);
 }
 
 void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
 {
-    base_int_parameter_->SetFromChromosome(from, to);
+    CheckedBaseParameter().SetFromChromosome(from, to);
 }
 
 double DoubleParameter::GetValue() const
 {
     //The last grid node is exactly the upper bound, regardless of rounding
-    if (base_int_parameter_->get_value() == base_int_parameter_->get_max_value())
+    if (CheckedBaseParameter().get_value() == CheckedBaseParameter().get_max_value())
     {
         return max_value_;
     }
-    return  base_int_parameter_->get_value() * precision_ + min_value_;
+    return  CheckedBaseParameter().get_value() * precision_ + min_value_;
 }
 
 void DoubleParameter::SetValue(double value)
@@ -113,7 +113,7 @@ void DoubleParameter::SetValue(double value)
     //Values out of int range are out of bounds as well and remain so
     grid_value = std::min(grid_value, (double)std::numeric_limits<int>::max());
     grid_value = std::max(grid_value, (double)std::numeric_limits<int>::min());
-    base_int_parameter_->set_value((int)grid_value);
+    CheckedBaseParameter().set_value((int)grid_value);
 }
 
 double DoubleParameter::get_max_value() const
@@ -154,6 +154,15 @@ int DoubleParameter::CountBestMaxInt(int initial_max_int)
     return best_max_int;
 }
 
+IntParameter& DoubleParameter::CheckedBaseParameter() const
+{
+    if (!base_int_parameter_)
+    {
+        throw std::logic_error("DoubleParameter was used without being initialized");
+    }
+    return *base_int_parameter_;
+}
+
 bool DoubleParameter::CheckBounds(double value) const
 {
     return value >= min_value_ && value <= max_value_;
-- 
2.43.0


From 4d93b7b5f6af0eed5ec5cadc54e2d49144c49fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 41/53] fix: GA refuses initial parameters that violate
 constraints instead of looping forever

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 183c689..50ba4ef 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -245,6 +245,12 @@ void GeneticAlgorithm::ValidateInitialParameters(const IDiscreteParameters* para
             throw std::invalid_argument("Initial parameters have defferent chromosome representation. "
                 "Check if their meta-parameters are equal to parameters_to_optimeze's.");
         }
+
+        // same as for the individuals read from file
+        if (!initial_parameters_[i]->CheckConstraints())
+        {
+            throw std::invalid_argument("Initial parameters do not satisfy constraints.");
+        }
     }
 }
 
-- 
2.43.0


From afca7b991e618511f62a1a332cd1ebef1419ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 42/53] fix: Hooke-Jeeves makes moves shorter than 1e-10, so
 that it keeps the best point at high precision

---
 src/optimization/hooke_jeeves_method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 2ece89a..956f277 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -81,7 +81,8 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
     do
     {
         arguments_after_search = CoordinatewiseSearch(arguments, steps_array);
-        if (common::FloatingPoint::AreEqual(arguments, arguments_after_search))
+        //The search moves only to better points, so any move counts, however short
+        if (arguments == arguments_after_search)
         {
             for (size_t i = 0; i < steps_array.size(); ++i)
             {
-- 
2.43.0


From a6ce26281aa3bc3c7c4a11a63c43ad006bcf2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 43/53] fix: a thread pool that cannot start all its threads
 stops and joins those it started

---
 .../thread/thread_worker_pool_templated.h     | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 471860c..bf7a793 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -25,6 +25,7 @@ public:
 
 private:
     void Initialize();
+    void StopWorkers(int number_of_started_workers);
 
     int number_of_workers_;
     Worker<TTask>* workers_;
@@ -52,18 +53,7 @@ ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated(int number_of_worker
 template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::~ThreadWorkerPoolTemplated()
 {
-    for(int i=0; i<number_of_workers_; i++)
-    {
-        workers_[i].Stop();
-    }
-
-    //Wait for correct finalization of all threads
-    for(int i=0; i<number_of_workers_; i++)
-    {
-        workers_[i].Join();
-    }
-
-    delete [] workers_;
+    StopWorkers(number_of_workers_);
 }
 
 template <class TTask>
@@ -103,10 +93,37 @@ void ThreadWorkerPoolTemplated<TTask>::Initialize()
 
     workers_ = new Worker<TTask> [number_of_workers_];
 
-    for(int i=0; i<number_of_workers_; i++)
+    int number_of_started_workers = 0;
+    try
+    {
+        for(; number_of_started_workers<number_of_workers_; number_of_started_workers++)
+        {
+            workers_[number_of_started_workers].Start(&tasks_to_do_, &done_tasks_);
+        }
+    }
+    catch(...)
+    {
+        //The destructor will not run, and the threads started so far must not outlive the queues
+        StopWorkers(number_of_started_workers);
+        throw;
+    }
+}
+
+template <class TTask>
+void ThreadWorkerPoolTemplated<TTask>::StopWorkers(int number_of_started_workers)
+{
+    for(int i=0; i<number_of_started_workers; i++)
     {
-        workers_[i].Start(&tasks_to_do_, &done_tasks_);
+        workers_[i].Stop();
     }
+
+    //Wait for correct finalization of all threads
+    for(int i=0; i<number_of_started_workers; i++)
+    {
+        workers_[i].Join();
+    }
+
+    delete [] workers_;
 }
 
 } /* namespace thread */
-- 
2.43.0


From 3c50093e8d1ec2169bd8f0596e0c8bd9b15c9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 44/53] fix: logarithmic scale refuses exponents whose powers
 of two do not fit instead of overflowing

---
 src/dsp/transform/wavelet/logarithmic_scale.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dsp/transform/wavelet/logarithmic_scale.cpp b/src/dsp/transform/wavelet/logarithmic_scale.cpp
index 3e8ae07..6bb9124 100644
--- a/src/dsp/transform/wavelet/logarithmic_scale.cpp
+++ b/src/dsp/transform/wavelet/logarithmic_scale.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/wavelet/logarithmic_scale.h>
+#include <limits>
 #include <stdexcept>
 #include <math.h>
 
@@ -17,6 +18,13 @@ LogarithmicScale::LogarithmicScale(int min_exponent, int max_exponent)
         throw invalid_argument("min_exponent >= max_exponent");
     }
 
+    //Smaller and larger powers of two are not representable
+    if(min_exponent < std::numeric_limits<double>::min_exponent - std::numeric_limits<double>::digits ||
+       max_exponent >= std::numeric_limits<double>::max_exponent)
+    {
+        throw invalid_argument("exponent is out of range of double");
+    }
+
     scales_ = CalculateScales(min_exponent, max_exponent);
 }
 
-- 
2.43.0


From c74060e8ae259b2015fcae12df7e96901c17dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:33 +0000
Subject: [PATCH 45/53] fix: a wavelet with changed dimensions does not read
 samples of the old ones out of bounds

---
 include/k52/dsp/wavelet.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/k52/dsp/wavelet.h b/include/k52/dsp/wavelet.h
index 69da850..120b3c9 100644
--- a/include/k52/dsp/wavelet.h
+++ b/include/k52/dsp/wavelet.h
@@ -34,8 +34,8 @@ public:
     inline void base_function(IWavelet::shared_ptr function) { base_function_ = function; }
 
     inline int  count()                    { return count_; }
-    inline void count(int count)           { count_ = count; }
-    inline void max_lenght(int max_lenght) { max_lenght_ = max_lenght; }
+    inline void count(int count)           { count_ = count; DropSamples(); }
+    inline void max_lenght(int max_lenght) { max_lenght_ = max_lenght; DropSamples(); }
     inline int  max_lenght()               { return max_lenght_;}
     inline void min_lenght(int min_lenght) { min_lenght_ = min_lenght; }
     inline int  min_lenght()               { return min_lenght_; }
@@ -53,6 +53,9 @@ protected:
     void createScale(ScaleType type);
 
 private:
+    // Samples are of no use for other dimensions
+    inline void DropSamples() { real_part_.clear(); imaj_part_.clear(); }
+
     IWavelet::shared_ptr base_function_;
     int count_;
     int max_lenght_;
-- 
2.43.0


From a53236671b30b596197731a73cd03bda742a2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 46/53] fix: wavelet of a non-positive minimal length is
 refused instead of dividing by zero

---
 src/dsp/wavelet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/wavelet.cpp b/src/dsp/wavelet.cpp
index 0962d16..03ae3be 100644
--- a/src/dsp/wavelet.cpp
+++ b/src/dsp/wavelet.cpp
@@ -4,6 +4,7 @@
 #include <cmath>
 #include <numeric>
 #include <iostream>
+#include <stdexcept>
 
 namespace k52
 {
@@ -43,6 +44,11 @@ void Wavelet::createWavelet(ScaleType type)
         throw "The base function has been never set for the wavelet\n";
     }
 
+    if(min_lenght() <= 0)
+    {
+        throw std::invalid_argument("min_lenght must be positive");
+    }
+
     // prepare real part vector
     real_part_.clear();
     real_part_.resize(count());
-- 
2.43.0


From a35f80a152471d343210c681d30193223ca11374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 47/53] fix: continuous wavelet transform refuses non-positive
 steps instead of looping forever

---
 include/k52/dsp/cwt.h | 7 +++++++
 src/dsp/cwt.cpp       | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/include/k52/dsp/cwt.h b/include/k52/dsp/cwt.h
index c1689be..c1bcf29 100644
--- a/include/k52/dsp/cwt.h
+++ b/include/k52/dsp/cwt.h
@@ -1,6 +1,8 @@
 #ifndef K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 #define K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 
+#include <stdexcept>
+
 #include <k52/dsp/wavelet.h>
 
 namespace k52
@@ -14,6 +16,11 @@ std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vec
                                                                   int step,
                                                                   CallbackUnaryPredicat callback)
 {
+    if(step <= 0)
+    {
+        throw std::invalid_argument("step must be positive");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
diff --git a/src/dsp/cwt.cpp b/src/dsp/cwt.cpp
index 2717e94..235cb25 100644
--- a/src/dsp/cwt.cpp
+++ b/src/dsp/cwt.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/cwt.h>
+#include <stdexcept>
 
 namespace k52
 {
@@ -8,6 +9,11 @@ namespace dsp
 std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vector<double>& source_data,
                                                                   Wavelet::shared_ptr wavelet, int step)
 {
+    if(step <= 0)
+    {
+        throw std::invalid_argument("step must be positive");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
-- 
2.43.0


From 57a6bd0b8696ee94ee5d26e2195900e0ce198fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 48/53] fix: negative wavelet length is refused instead of
 writing out of bounds

---
 include/k52/dsp/wavelet.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/k52/dsp/wavelet.h b/include/k52/dsp/wavelet.h
index 120b3c9..d287cf7 100644
--- a/include/k52/dsp/wavelet.h
+++ b/include/k52/dsp/wavelet.h
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include <k52/common/disallow_copy_and_assign.h>
@@ -35,7 +36,15 @@ public:
 
     inline int  count()                    { return count_; }
     inline void count(int count)           { count_ = count; DropSamples(); }
-    inline void max_lenght(int max_lenght) { max_lenght_ = max_lenght; DropSamples(); }
+    inline void max_lenght(int max_lenght)
+    {
+        if (max_lenght < 0)
+        {
+            throw std::invalid_argument("max_lenght must not be negative");
+        }
+        max_lenght_ = max_lenght;
+        DropSamples();
+    }
     inline int  max_lenght()               { return max_lenght_;}
     inline void min_lenght(int min_lenght) { min_lenght_ = min_lenght; }
     inline int  min_lenght()               { return min_lenght_; }
-- 
2.43.0


From 09340b58dae4a49f37558aa264704696140ebbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 49/53] fix: continuous random quantities do not exceed the
 upper bound by rounding

---
 src/common/random.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 1df4616..2a96029 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -33,7 +33,14 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
-    return base * (max_value - min_value) + min_value;
+    double value = base * (max_value - min_value) + min_value;
+
+    //Rounding may carry the sum over the upper bound when the base is close to one
+    if (min_value <= max_value && value > max_value)
+    {
+        return max_value;
+    }
+    return value;
 }
 
 std::vector<double> Random::GenerateRandomVector(size_t vector_size, double min_value, double max_value)
-- 
2.43.0


From 42f67ed66719d91828b3748b0aa535afc7367994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 50/53] fix: grid nodes do not exceed the upper bound by
 rounding

---
 src/optimization/grid_search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index c582fb5..14d697b 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -58,7 +58,8 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize,
         for(size_t j = 0; j < number_of_parameters; j++)
         {
             size_t index = i / IntegerPow(size_per_parameter, j);
-            values[j] = (index % size_per_parameter) * precision_ + lower_bound_;
+            //Rounding may carry the last node of a row over the upper bound
+            values[j] = std::min((index % size_per_parameter) * precision_ + lower_bound_, upper_bound_);
         }
 
         continuous_parameters->SetValues(values);
-- 
2.43.0


From 366b8cc1c8f3bb60394f25f97f724b14704a4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 51/53] fix: merging settings keeps properties whose key is
 empty or contains dots

---
 include/k52/common/settings_manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index b5001fc..5a23be9 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -123,11 +123,12 @@ protected:
             if (merged_tree.end() != found)
             {
                 // Do not overload value of existed property, just add subtrees
-                merged_tree.get_child(it->first) = Merge(found->second, it->second);
+                found->second = Merge(found->second, it->second);
             }
             else
             {
-                merged_tree.put_child(it->first, it->second);
+                // Key is not a path, it may be empty or contain dots
+                merged_tree.push_back(*it);
             }
         }
         return merged_tree;
-- 
2.43.0


From 92de641ed5a92b4f26daf3ae7281fac1a6515ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:03 +0000
Subject: [PATCH 52/53] fix: steepest descent does not step uphill when its
 precision is coarse for a steep function

---
 src/optimization/steepest_descent_method.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 8381f9f..25ac159 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -202,6 +202,9 @@ double SteepestDescentMethod::FindStepLength(
     double last_right_border = 0;
     double next_left_border_value = 0;
     double next_right_border_value = 0;
+    const double init_value = CountObjectiveFunctionValueToMinimize(init_parameters);
+    vector<double> middle_point(init_parameters.size());
+    bool is_interval_narrow = false;
     do
     {
         for (size_t i = 0; i < init_parameters.size(); ++i)
@@ -249,7 +252,18 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((std::abs(left_border - right_border) > precision_));
+        is_interval_narrow = !(std::abs(left_border - right_border) > precision_);
+        if (is_interval_narrow)
+        {
+            for (size_t i = 0; i < init_parameters.size(); ++i)
+            {
+                middle_point[i] = init_parameters[i] + (left_border + right_border) / 2 * direction[i];
+            }
+            //On steep functions even a narrow interval may lead uphill
+            is_interval_narrow = !(CountObjectiveFunctionValueToMinimize(middle_point) > init_value);
+        }
+
+    } while (!is_interval_narrow);
 
     return (left_border + right_border) / 2;
 }
-- 
2.43.0


From f2addcdd5568b1b750287ecb4edbfe01e54ed095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 53/53] fix: last linear scale is exactly the maximum also when
 rounding would carry it to infinity

---
 src/dsp/transform/wavelet/linear_scale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp/transform/wavelet/linear_scale.cpp b/src/dsp/transform/wavelet/linear_scale.cpp
index 45a3a41..def6d85 100644
--- a/src/dsp/transform/wavelet/linear_scale.cpp
+++ b/src/dsp/transform/wavelet/linear_scale.cpp
@@ -50,6 +50,8 @@ vector< double > LinearScale::CalculateScales()
     {
         scales[i] = min_scale_ + scale_step * i;
     }
+    //Rounding must not move the last scale off the maximum
+    scales[scale_count_ - 1] = max_scale_;
     return scales;
 }
 
-- 
2.43.0

