From 858779866ee9e9265e64e377975e69a2823f1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 01/48] fix: sequential if of a 1d condition and two scalars
 must not compare a scalar's size with the condition's

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From 411f4e7da009d04439f9673c2f5b61964d7f1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 02/48] fix: add decides signed overflow from the operands, and
 does not flag in-range sums of signed and unsigned values

---
 .../algorithm/algebra/elementary/detail/add.h | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..7cdd8af 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -71,17 +71,20 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& value1,
         Value2 const& value2,
-        Result const& result)
+        Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed + signed
-        // Overflow/underflow if sign of result is different.
-        // This only works if overflow wraps, which is not guaranteed.
-        // See http://www.airs.com/blog/archives/120 and gcc's
-        // -fno-strict-overflow argument.
-        return value2 > 0 ? !(result < value1) : !(result > value1);
+        // The result cannot be used, since signed overflow is undefined. Test
+        // whether the sum of the operands fits the result type.
+        return static_cast<Result>(value2) > 0
+            ? static_cast<Result>(value1) <=
+                max<Result>() - static_cast<Result>(value2)
+            : static_cast<Result>(value1) >=
+                min<Result>() - static_cast<Result>(value2)
+            ;
     }
 };
 
@@ -123,13 +126,20 @@ struct within_range<
 {
     inline static constexpr bool calculate(
         Value1 const& value1,
-        Value2 const& /* value2 */,
-        Result const& result)
+        Value2 const& value2,
+        Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // Both operands are converted to the (signed) result type.
+        return static_cast<Result>(value2) > 0
+            ? static_cast<Result>(value1) <=
+                max<Result>() - static_cast<Result>(value2)
+            : static_cast<Result>(value1) >=
+                min<Result>() - static_cast<Result>(value2)
+            ;
     }
 };
 
-- 
2.43.0


From 110455e7343f870e7ec37b5ec4bcb3946bd4a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 03/48] fix: subtract decides signed overflow from the
 operands, also when signed and unsigned values are mixed

---
 .../algebra/elementary/detail/subtract.h      | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index b989dfd..5bbe6d3 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -72,14 +72,20 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& value1,
         Value2 const& value2,
-        Result const& result)
+        Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
-        // signed + signed
-        // Overflow/underflow if sign of result is different.
-        return value2 > 0 ? !(result > value1) : !(result < value1);
+        // signed - signed
+        // The result cannot be used, since signed overflow is undefined. Test
+        // whether the difference of the operands fits the result type.
+        return static_cast<Result>(value2) > 0
+            ? static_cast<Result>(value1) >=
+                min<Result>() + static_cast<Result>(value2)
+            : static_cast<Result>(value1) <=
+                max<Result>() + static_cast<Result>(value2)
+            ;
     }
 };
 
@@ -98,15 +104,17 @@ struct within_range<
     inline static bool calculate(
         Value1 const& value1,
         Value2 const& value2,
-        Result const& result)
+        Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
         // unsigned - signed
-        return value2 > 0
-            ? result < static_cast<Result>(value1)
-            : result >= static_cast<Result>(value1)
+        return static_cast<Result>(value2) > 0
+            ? static_cast<Result>(value1) >=
+                min<Result>() + static_cast<Result>(value2)
+            : static_cast<Result>(value1) <=
+                max<Result>() + static_cast<Result>(value2)
             ;
     }
 };
@@ -126,15 +134,17 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& value1,
         Value2 const& value2,
-        Result const& result)
+        Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
         // signed - unsigned
-        return value2 > 0
-            ? result < static_cast<Result>(value1)
-            : result >= static_cast<Result>(value1)
+        return static_cast<Result>(value2) > 0
+            ? static_cast<Result>(value1) >=
+                min<Result>() + static_cast<Result>(value2)
+            : static_cast<Result>(value1) <=
+                max<Result>() + static_cast<Result>(value2)
             ;
     }
 };
-- 
2.43.0


From e596b2d11c8d546c91b68074ec3b933b5b639a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 04/48] fix: multiply handles zero, negative and mixed
 signedness operands when deciding overflow

---
 .../algebra/elementary/detail/multiply.h         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..a23b3aa 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -83,7 +83,7 @@ struct within_range<
         //      never happen.
 
         // signed int * signed int
-        if(value2 == Value2(0)) {
+        if(value1 == Value1(0) || value2 == Value2(0)) {
             return true;
         }
         else if(value1 > Value1(0)) {
@@ -93,7 +93,7 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
         else {
@@ -102,8 +102,8 @@ struct within_range<
                 return value1 >= max<Result>() / value2;
             }
             else {
-                // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                // value1 is negative, value2 is positive.
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -133,14 +133,16 @@ struct within_range<
         //      never happen.
 
         // unsigned * signed
-        if(value2 == Value2(0)) {
+        // Both operands are converted to the (signed) result type.
+        if(value1 == Value1(0) || value2 == Value2(0)) {
             return true;
         }
         else if(value2 > 0) {
-            return value1 <= max<Result>() / value2;
+            return static_cast<Result>(value1) <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            return value2 >= min<Result>() /
+                static_cast<Result>(value1);
         }
     }
 };
-- 
2.43.0


From 2c79f0fcf2e95a375067483cb32d3662b9c17bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 05/48] fix: divide flags, and survives, dividing the smallest
 signed value by -1

---
 .../algebra/elementary/detail/divide.h        | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..3ad2562 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -70,15 +70,18 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        // Dividing the smallest value by -1 is the only division whose result
+        // doesn't fit the result type.
+        return !(value2 == Value2(-1) &&
+            static_cast<Result>(value1) == min<Result>());
     }
 };
 
@@ -251,7 +254,17 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+
+        if(std::is_integral<R>::value && std::is_signed<R>::value &&
+                static_cast<R>(value1) == min<R>() &&
+                static_cast<R>(value2) == R(-1)) {
+            // The quotient doesn't fit the result type. Don't perform the
+            // division: on some platforms it raises SIGFPE.
+            result = min<R>();
+        }
+        else {
+            result = static_cast<R>(value1) / static_cast<R>(value2);
+        }
     }
 
 };
-- 
2.43.0


From d8ac4d776a55deb27c018fb7f68ee4d2703b6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 06/48] fix: clamp: parallel execution with one scalar bound
 did not compile

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 91a6f5aafd762f0960440f500c6f53ab83f06ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 07/48] fix: copy: parallel copy of an empty range accessed an
 empty vector

---
 source/fern/algorithm/core/detail/copy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..9a5f3af 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -161,7 +161,11 @@ struct CopyByArgumentCategory<
         }
 
         std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+
+        // An empty range isn't divided in blocks.
+        if(!position_per_block.empty()) {
+            position_per_block[0] = position;
+        }
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 052cbab2283f2a544f818f7f0baf2738454b7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 08/48] fix: binary_aggregate_operation: a parallel block with
 only no-data turned the whole result into no-data

---
 .../core/binary_aggregate_operation.h         | 161 +++++++++++-------
 1 file changed, 96 insertions(+), 65 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..db5b5f1 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <tuple>
+#include <vector>
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/feature/core/data_customization_point/masked_array.h"
@@ -50,13 +52,11 @@ template<
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+std::tuple<bool, bool> operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<1> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -68,6 +68,7 @@ void operation_1d(
     size_t const begin = index_ranges[0].begin();
     size_t const end = index_ranges[0].end();
     bool data_seen{false};
+    bool within_range{true};
 
     if(begin < end) {
 
@@ -96,7 +97,7 @@ void operation_1d(
 
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            within_range = false;
                             break;
                         }
 
@@ -107,9 +108,7 @@ void operation_1d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, within_range);
 }
 
 
@@ -118,13 +117,11 @@ template<
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+std::tuple<bool, bool> operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<2> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -138,6 +135,7 @@ void operation_2d(
     size_t const begin2 = index_ranges[1].begin();
     size_t const end2 = index_ranges[1].end();
     bool data_seen{false};
+    bool within_range{true};
 
     if(begin1 < end1 && begin2 < end2) {
 
@@ -196,7 +194,7 @@ void operation_2d(
                         // lhs, rhs, lhs + rhs
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            within_range = false;
                             break;
                         }
 
@@ -219,9 +217,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, within_range);
 }
 
 
@@ -392,10 +388,18 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<1>{IndexRange(0, size(values))},
-            values, value, result);
+        bool data_seen;
+        bool within_range;
+
+        std::tie(data_seen, within_range) =
+            operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<1>{IndexRange(0, size(values))},
+                values, value, result);
+
+        if(!data_seen || !within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -431,52 +435,58 @@ struct BinaryAggregateOperation<
         value_type<Value> const& value,
         Result& result)
     {
-        // Algorithm algorithm;
-
-        // operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-        //     input_no_data_policy, output_no_data_policy,
-        //     IndexRanges<1>{IndexRange(0, size(values))},
-        //     values, value, result);
-
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_1d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
                 std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Only blocks that contain data contribute to the result. A block
+        // with only no-data must not turn the overall result into no-data.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+        bool all_within_range{true};
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            bool data_seen;
+            bool within_range;
+
+            std::tie(data_seen, within_range) = futures[i].get();
+
+            if(data_seen) {
+                results.emplace_back(results_per_block[i]);
+            }
+
+            all_within_range = all_within_range && within_range;
         }
 
-        Aggregator aggregator;
+        if(results.empty() || !all_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
@@ -585,12 +595,20 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<2>{
-                IndexRange(0, size(values, 0)),
-                IndexRange(0, size(values, 1))},
-            values, value, result);
+        bool data_seen;
+        bool within_range;
+
+        std::tie(data_seen, within_range) =
+            operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<2>{
+                    IndexRange(0, size(values, 0)),
+                    IndexRange(0, size(values, 1))},
+                values, value, result);
+
+        if(!data_seen || !within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -631,42 +649,55 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_2d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
                 std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Only blocks that contain data contribute to the result. A block
+        // with only no-data must not turn the overall result into no-data.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+        bool all_within_range{true};
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            bool data_seen;
+            bool within_range;
+
+            std::tie(data_seen, within_range) = futures[i].get();
+
+            if(data_seen) {
+                results.emplace_back(results_per_block[i]);
+            }
+
+            all_within_range = all_within_range && within_range;
         }
 
-        Aggregator aggregator;
+        if(results.empty() || !all_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
-- 
2.43.0


From 0b487b46624576351be0db1c22ce0be1dafe1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 09/48] fix: binary_aggregate_operation: rows after a first row
 with only no-data were skipped

---
 source/fern/algorithm/core/binary_aggregate_operation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index db5b5f1..19084ee 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -149,6 +149,7 @@ std::tuple<bool, bool> operation_2d(
         // Initialize result.
         for(; i < end1; ++i) {
 
+            j = begin2;
             index_ = index(values, i, j);
 
             for(; j < end2; ++j) {
-- 
2.43.0


From 329b18691c530a995d03f31fd666e24985ae0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 10/48] fix: convolve: a no-data cell surrounded by only
 no-data has no focal average

---
 .../replace_no_data_by_focal_average.h           | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..28cce91 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -7,7 +7,6 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
 #include <cstddef>
 #include <tuple>
 #include "fern/core/data_customization_point.h"
@@ -83,16 +82,13 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
+    // The cell may be surrounded by only no-data, in which case there is no
+    // alternative value.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
 
-    return true;
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From 482d1c9881d25ace7f68d390118737898790db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 11/48] fix: Mode: a default constructed accumulator counted a
 zero that was never added

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 2e66259e3f075fe434202c6c2f643f643bb10046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 12/48] fix: Count: merging with a range policy ignored the
 other count

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 9b440e1debd92228b080046442bb2661a1a41fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 13/48] fix: Sum: merging with a range policy squeezed the
 other sum into the argument type

---
 source/fern/algorithm/accumulator/sum.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..3303211 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,12 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    // The sum to add is a Result, which may not fit in an Argument.
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From dc3465a59a8eaf7739093dee1cb33e3cc9d12b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 14/48] fix: Mean: integral means of more values than the
 result type can count were wrong or trapped

---
 source/fern/algorithm/accumulator/mean.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..aaa8ea6 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -176,7 +178,13 @@ inline Result Mean<Argument, Result>::operator()() const
 
     // _sum() returns result in Result. Dividing by _count may implicitly cast
     // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // The count may not fit in an integral Result.
+    using Divisor = typename std::conditional<
+        std::is_floating_point<Result>::value, Result,
+        typename std::conditional<std::is_signed<Result>::value,
+            int64_t, uint64_t>::type>::type;
+
+    return static_cast<Result>(_sum() / static_cast<Divisor>(_count()));
 }
 
 
-- 
2.43.0


From 3844096e99096991268ee3ea649f02ec3bedcbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 15/48] fix: Median: the sum of the two center values
 overflowed narrow integral types

---
 source/fern/algorithm/accumulator/median.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..6bc6724 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
+#include <type_traits>
 #include <vector>
 
 
@@ -147,8 +149,17 @@ inline Result Median<Argument, Result>::operator()() const
     }
     else {
         // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        // The sum of these values may not fit in an integral Result.
+        using Sum = typename std::conditional<
+            std::is_integral<Argument>::value &&
+                std::is_integral<Result>::value,
+            typename std::conditional<std::is_signed<Argument>::value,
+                int64_t, uint64_t>::type,
+            typename std::common_type<Argument, Result>::type>::type;
+
+        result = static_cast<Result>(
+            (static_cast<Sum>(_values[center_index - 1]) +
+                static_cast<Sum>(_values[center_index])) / 2);
     }
 
     return result;
-- 
2.43.0


From 9970b9d82f2c10d10a6fa91d9ed9cd4867b017cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 16/48] fix: binary_local_operation squeezed elements of the
 second 1d argument into the type of the first

---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From 85de6f90dbed895ea92dab9bade8308794fca4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 17/48] fix: focal average outside of images that are twice the
 kernel radius wide or high

At the corners of such images the neighbourhood of a value outside of the image
was not limited to the image: values next to the image were read, or the
neighbourhood turned out empty.
---
 .../replace_out_of_image_by_focal_average.h   | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
index cd358b9..1582a88 100644
--- a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
@@ -166,6 +166,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
     size_t nr_values_seen{0};
     size_t const radius{1};
 
+    size_t const last_row_source = size(source, 0) - 1;
+    size_t const last_col_source = size(source, 1) - 1;
+
     size_t index_;
 
     if(out_of_image_kernel_row < first_row_kernel) {
@@ -218,8 +221,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(out_of_image_kernel_col -
+                        first_col_kernel + radius, last_col_source);
 
                     index_ = index(source, row, col);
 
@@ -248,8 +251,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
             size_t row = out_of_image_kernel_row - first_row_kernel >= radius
                 ? out_of_image_kernel_row -first_row_kernel - radius
                 : 0;
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(out_of_image_kernel_row -
+                first_row_kernel + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
                 size_t col = first_col_source;
@@ -300,6 +303,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
     size_t const radius{1};
 
     size_t const last_col_kernel = first_col_kernel + nr_cols_kernel - 1;
+    size_t const last_row_source = size(source, 0) - 1;
     size_t const last_col_source = size(source, 1) - 1;
 
     size_t index_;
@@ -353,7 +357,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
                     index_ = index(source, row, col);
@@ -385,8 +389,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
                     ? out_of_image_kernel_row - first_row_kernel - radius
                     : 0;
 
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(out_of_image_kernel_row -
+                first_row_kernel + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
 
@@ -441,6 +445,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
     size_t const last_row_kernel = first_row_kernel + nr_rows_kernel - 1;
     size_t const last_row_source = size(source, 0) - 1;
+    size_t const last_col_source = size(source, 1) - 1;
 
     size_t index_;
 
@@ -494,8 +499,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(out_of_image_kernel_col -
+                        first_col_kernel + radius, last_col_source);
 
                     index_ = index(source, row, col);
 
@@ -524,7 +529,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
@@ -637,7 +642,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
 
@@ -668,7 +673,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
-- 
2.43.0


From a23fc6ac9d81ab9b1f30cf51092008b90bb9aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 18/48] fix: cloning a 3D masked array gave the third dimension
 the size of the second

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From d3e3b56fb07322677ac4d88909922aaf7c946c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 19/48] fix: cloning a 3D raster did not compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From aad446632bac3a557875ac05071860d3f55d3250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 20/48] fix: moving a ScopeExit made both instances call the
 function

---
 source/fern/core/scope_exit.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..292e472 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,7 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other);
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +100,25 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Move-construct an instance.
+
+    The responsibility to call the layered function, if any, moves from
+    @a other to this instance.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other)
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other.release();
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From a26ee795e808118edb578069a5a62745fee67f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 21/48] fix: XmlParser: subscripts and attributes of subscripts
 and attributes tripped an assertion

---
 source/fern/language/ast/xml/xml_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index fd29651..930343d 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -892,7 +892,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         if(!_data_stack.top().expression) {
             _data_stack.top().expression = vertex;
         }
@@ -939,7 +939,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(!_data_stack.top().expression);
         _data_stack.top().expression = vertex;
     }
@@ -947,14 +947,14 @@ public:
     void Name(
         std::string const& name)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(_data_stack.top().member_name.empty());
         _data_stack.top().member_name = name;
     }
 
     std::shared_ptr<ExpressionVertex> post_Attribute()
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         AttributeData result(_data_stack.top());
         _data_stack.pop();
         return std::shared_ptr<AttributeVertex>(
-- 
2.43.0


From e7679ef8531a9b102b2eb961503c91827ceb517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 22/48] fix: ThreadVisitor: return statements in nested blocks,
 and functions defined after one, tripped an assertion

---
 .../language/ast/visitor/thread_visitor.cc    | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/fern/language/ast/visitor/thread_visitor.cc b/source/fern/language/ast/visitor/thread_visitor.cc
index 5c32a66..b704dbd 100644
--- a/source/fern/language/ast/visitor/thread_visitor.cc
+++ b/source/fern/language/ast/visitor/thread_visitor.cc
@@ -407,27 +407,27 @@ void ThreadVisitor::Visit(
 
         for(auto statementVertex: vertex.statements()) {
             statementVertex->Accept(*this);
-            assert(_last_vertex);
-            // Iff the last vertex' successor is the sentinel of this scope,
-            // then the last statement was the return statement, which
-            // explicitly connected to the sentinel. In that case we reset
-            // the _last_vertex pointer to null. Subsequent statements are
-            // threaded but they are not connected to the control flow graph.
-            // This is the reason that leave vertices (expressions,
-            // return statement) have to test whether _last_vertex is not
-            // null before attaching (they call thread_to(AstVertex)).
-            if(_last_vertex->has_successor()) {
-                assert(_last_vertex->successor() == &*vertex.sentinel());
+            // Iff the last vertex' successor is the sentinel of the function
+            // being processed, then the last statement was the return
+            // statement, which explicitly connected to the sentinel. In that
+            // case we reset the _last_vertex pointer to null. Subsequent
+            // statements are threaded but they are not connected to the
+            // control flow graph. This is the reason that leave vertices
+            // (expressions, return statement) have to test whether
+            // _last_vertex is not null before attaching (they call
+            // thread_to(AstVertex)).
+            if(_last_vertex && _last_vertex->has_successor()) {
+                assert(!_function_definitions.empty());
+                assert(_last_vertex->successor() ==
+                    &*_function_definitions.top()->scope()->sentinel());
                 _last_vertex = nullptr;
             }
         }
 
         // If _last_vertex is the null vertex, then the last statement was
-        // a return statement which is already connected to the sentinel
-        // vertex. Otherwise, just visit the sentinel vertex.
+        // a return statement which is already connected to the function's
+        // sentinel vertex. Otherwise, just visit the sentinel vertex.
         if(!_last_vertex) {
-            assert(vertex.statements().back()->successor() ==
-                &*vertex.sentinel());
             _last_vertex = &*vertex.sentinel();
         }
         else {
-- 
2.43.0


From 66cb60f1f883667dad7a830fcaf81cecb1b7db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 23/48] fix: IOVisitor: redefining an identifier twice reported
 the wrong outputs

---
 source/fern/language/ast/visitor/io_visitor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 05b333a..d35781a 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -74,8 +74,14 @@ void IOVisitor::Visit(
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
                 // Remove it first. We want to store this latter occurence.
-                _outputs.erase(_outputs.begin() + _output_id_by_name[
-                    vertex.name()]);
+                // The outputs that follow it move to the front.
+                size_t const id = _output_id_by_name[vertex.name()];
+                _outputs.erase(_outputs.begin() + id);
+                for(auto& pair: _output_id_by_name) {
+                    if(pair.second > id) {
+                        --pair.second;
+                    }
+                }
             }
 
             _output_id_by_name[vertex.name()] = _outputs.size();
-- 
2.43.0


From 031f66a86d42c9418b6ece39a2ffbcb5f1b06e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 24/48] fix: IOVisitor: identifiers defined by the module were
 reported as inputs

---
 source/fern/language/ast/visitor/io_visitor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index d35781a..7d8ee10 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -62,7 +62,10 @@ void IOVisitor::Visit(
 {
     switch(_mode) {
         case Mode::Using: {
-            if(std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
+            // Identifiers that are defined already are not inputs.
+            if(_output_id_by_name.find(vertex.name()) ==
+                    _output_id_by_name.end() &&
+                std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
                     _inputs.end()) {
                 _inputs.emplace_back(vertex.name());
             }
-- 
2.43.0


From f29688ddd498ffc79127760885a52cc3ce14f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 25/48] fix: standard_expression_type: int16 was overlooked
 when combining value types

---
 .../language/operation/core/expression_type_calculation.cc     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/operation/core/expression_type_calculation.cc b/source/fern/language/operation/core/expression_type_calculation.cc
index 5cf4682..c520d73 100644
--- a/source/fern/language/operation/core/expression_type_calculation.cc
+++ b/source/fern/language/operation/core/expression_type_calculation.cc
@@ -168,6 +168,9 @@ static ValueTypes result_value_type(
     else if(merged_argument_value_types.test(fern::VT_UINT16)) {
         result_value_type = ValueTypes::UINT16;
     }
+    else if(merged_argument_value_types.test(fern::VT_INT16)) {
+        result_value_type = ValueTypes::INT16;
+    }
     else if(merged_argument_value_types.test(fern::VT_UINT8)) {
         result_value_type = ValueTypes::UINT8;
     }
-- 
2.43.0


From 88afd9523496227cdd3cc1091e26b93c70a40da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 26/48] fix: AnnotateVisitor: the argument types were passed to
 the operation in reversed order

---
 source/fern/language/ast/visitor/annotate_visitor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1679cef..c769837 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -152,8 +152,9 @@ void AnnotateVisitor::Visit(
     // Get the result types from all argument expressions provided.
     std::vector<ExpressionType> argument_types;
     for(size_t i = 0; i < vertex.expressions().size(); ++i) {
+        // The type of the last argument is on top of the stack.
         assert(!_stack.empty());
-        argument_types.emplace_back(_stack.top());
+        argument_types.insert(argument_types.begin(), _stack.top());
         _stack.pop();
     }
 
-- 
2.43.0


From fef532fbafa41e685d99d220cbd4ed7eeba4a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 27/48] fix: file_exists threw an exception for names that
 cannot be looked up

---
 source/fern/io/core/file.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/core/file.cc b/source/fern/io/core/file.cc
index 997eb45..3a702c6 100644
--- a/source/fern/io/core/file.cc
+++ b/source/fern/io/core/file.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/core/file.h"
 #include <filesystem>
+#include <system_error>
 
 
 namespace fern {
@@ -20,7 +21,9 @@ namespace io {
 bool file_exists(
     std::string const& pathname)
 {
-    return std::filesystem::exists(pathname);
+    // In case the existence cannot be determined, pathname is not accessible.
+    std::error_code error;
+    return std::filesystem::exists(pathname, error);
 }
 
 } // namespace io
-- 
2.43.0


From acf94543442fb7d8f4988ae0e4f050f7aaff644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 28/48] fix: a missing raster band aborted instead of raising
 an I/O error

---
 source/fern/io/gdal/dataset.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..6e77464 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,8 +65,8 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
-                band with id @a band_id.
+    @exception  IOError In case @a dataset does not contain a raster band with
+                id @a band_id.
 */
 GDALRasterBand* raster_band(
     DatasetHandle& dataset,
@@ -77,7 +77,9 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA, band_id));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
-- 
2.43.0


From 88d844d7e018b64773cad4e422592fbfc6aea23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 29/48] fix: reading a raster with other values than the
 destination aborted instead of raising an I/O error

---
 source/fern/io/gdal/detail/read.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..a41361e 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -64,9 +64,14 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
 
-    // TODO Exception if not.
+    if(gdal_value_type != ValueTypeTraits<value_type>::gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE,
+                data_name.data_pathname().generic_string(),
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
-- 
2.43.0


From 22042882831ed3fe4de35078628026955ee200e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 30/48] fix: a raster whose values cannot be read aborted
 instead of raising an I/O error

---
 source/fern/io/gdal/detail/read.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index a41361e..1d7b3ce 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -76,8 +76,8 @@ inline void read(
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From 7867b13038d9aac4e6eded9a2a1500167fa271e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 31/48] fix: a raster band without its no-data value had other
 values marked, and not-a-number went unmarked

---
 source/fern/io/gdal/detail/read.h | 47 ++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 1d7b3ce..4fd3add 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <limits>
+#include <type_traits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -28,6 +31,42 @@ void               read                (OutputNoDataPolicy&
                                         Destination& destination);
 
 
+/*!
+    @brief      Return whether values of type @a T can be equal to
+                @a no_data_value.
+
+    GDAL passes no-data values as doubles. They can be set to a value outside
+    of the range of the values in a raster band.
+*/
+template<
+    typename T
+>
+inline bool can_be_no_data(
+    double no_data_value)
+{
+    return !std::is_integral<T>::value || (
+        no_data_value >= std::numeric_limits<T>::lowest() &&
+        no_data_value <= std::numeric_limits<T>::max() &&
+        std::trunc(no_data_value) == no_data_value);
+}
+
+
+/*!
+    @brief      Return whether @a value is the no-data value, which is also
+                the case if both are not-a-number.
+*/
+template<
+    typename T
+>
+inline bool is_no_data(
+    T const& value,
+    T const& no_data_value)
+{
+    return value == no_data_value || (
+        value != value && no_data_value != no_data_value);
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -82,19 +121,19 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double const gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
-    if(has_no_data) {
+    if(has_no_data && can_be_no_data<value_type>(gdal_no_data_value)) {
+        auto const no_data_value = static_cast<value_type>(gdal_no_data_value);
         size_t index_;
 
         for(size_t i = 0; i < size(destination, 0); ++i) {
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(is_no_data(get(destination, index_), no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From 12930029d2d13209bda833e50f6bdc4508239f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 32/48] fix: a dataset was closed by handles that had been
 moved from

---
 source/fern/io/gdal/dataset_handle.cc        | 34 +++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h         |  4 +--
 source/fern/io/netcdf/core/dataset_handle.cc | 34 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  4 +--
 4 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..88e33b1 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/gdal/dataset_handle.h"
 #include <cassert>
+#include <utility>
 #include <gdal_priv.h>
 
 
@@ -28,12 +29,43 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance. The handle moved from doesn't
+                refer to a dataset anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    if(_dataset) {
+        GDALClose(_dataset);
+    }
+}
+
+
+/*!
+    @brief      Move assign @a other to this instance, closing the dataset this
+                instance refers to. The handle moved from doesn't refer to a
+                dataset anymore.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    DatasetHandle handle(std::move(other));
+    std::swap(_dataset, handle._dataset);
+
+    return *this;
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..f3abdfe 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -33,13 +33,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     GDALDataset*   operator->          ();
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..cd70cd7 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset_handle.h"
+#include <utility>
 #include <netcdf.h>
 
 
@@ -26,12 +27,43 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance. The handle moved from doesn't
+                refer to a dataset anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+    }
+}
+
+
+/*!
+    @brief      Move assign @a other to this instance, closing the dataset this
+                instance refers to. The handle moved from doesn't refer to a
+                dataset anymore.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    DatasetHandle handle(std::move(other));
+    std::swap(_ncid, handle._ncid);
+
+    return *this;
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..98dc01d 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -30,13 +30,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     int            ncid                () const;
 
-- 
2.43.0


From 138d5e6c49d357bef4224e1eabe235528a3e50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 33/48] fix: a data name that is not the name of a variable
 aborted instead of raising an I/O error

---
 source/fern/io/netcdf/coards/detail/read.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..e734f5d 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -69,9 +69,10 @@ inline void read_coards(
 
 
     // Verify that the requested variable is in the dataset.
-    assert(data_name.data_pathname().names().size() == 1u);
-    std::string variable_name{data_name.data_pathname().names()[0]};
-    if(!contains_variable(handle, variable_name)) {
+    auto const names = data_name.data_pathname().names();
+    std::string variable_name{names.size() == 1u
+        ? names[0] : data_name.data_pathname().generic_string()};
+    if(names.size() != 1u || !contains_variable(handle, variable_name)) {
         throw IOError(pathname,
             Exception::messages().format_message(
                 MessageId::DOES_NOT_CONTAIN_VARIABLE, variable_name));
-- 
2.43.0


From 07bd924d908a55ee0c89dfbf9c5af28bf06c8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 34/48] fix: reading a variable of another type than the
 destination aborted instead of raising an I/O error

---
 source/fern/io/netcdf/coards/detail/read.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index e734f5d..323d74e 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -90,8 +90,17 @@ inline void read_coards(
 
     // Verify that the requested variable has the same value type as the
     // variable passed in.
-    ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    nc_type type;
+    char type_name[NC_MAX_NAME + 1] = "";
+    nc_inq_vartype(handle.ncid(), variable_id, &type);
+    nc_inq_type(handle.ncid(), type, type_name, nullptr);
+    if(type > NC_MAX_ATOMIC_TYPE ||
+            fern::value_type_id<fern::value_type<Destination>>() !=
+                netcdf::value_type_id(handle, variable_id)) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name, type_name));
+    }
 
 
     // Read the variable.
-- 
2.43.0


From a0cd2539e073af04a4d62e39fd0aabfd5adf4163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 35/48] fix: a conventions attribute that is zero terminated,
 or not of type char, aborted

---
 source/fern/io/netcdf/core/attribute.cc | 62 ++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index 6bb0300..24b7511 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -23,20 +23,59 @@ std::string attribute(
 {
     assert(has_attribute(dataset, name));
 
-    size_t buffer_size;
-    int status = nc_inq_attlen(dataset.ncid(), NC_GLOBAL, name.c_str(),
-        &buffer_size);
+    nc_type type;
+    size_t size;
+    int status = nc_inq_att(dataset.ncid(), NC_GLOBAL, name.c_str(), &type,
+        &size);
 
     assert(status == NC_NOERR);
 
-    std::vector<char> buffer(buffer_size);
-    status = nc_get_att_text(dataset.ncid(), NC_GLOBAL, name.c_str(),
-        buffer.data());
+    std::string value;
+
+    if(type == NC_STRING) {
+        // Collection of strings, each allocated by the NetCDF library.
+        assert(size == 1u);
+        char* string;
+        status = nc_get_att_string(dataset.ncid(), NC_GLOBAL, name.c_str(),
+            &string);
+        assert(status == NC_NOERR);
+        value = string ? string : "";
+        nc_free_string(1u, &string);
+    }
+    else {
+        value.resize(size);
+        status = nc_get_att_text(dataset.ncid(), NC_GLOBAL, name.c_str(),
+            &value[0]);
+        assert(status == NC_NOERR);
+
+        // Text may have been stored including terminating zeros.
+        value.erase(value.find_last_not_of('\0') + 1);
+    }
+
+    return value;
+}
+
+
+/*!
+    @brief      Return whether or not global attribute @a name contains a
+                single text.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+    - @a name corresponds with a global attribute in the dataset.
+*/
+static bool attribute_is_text(
+    DatasetHandle const& dataset,
+    std::string const& name)
+{
+    nc_type type;
+    size_t size;
+    int status = nc_inq_att(dataset.ncid(), NC_GLOBAL, name.c_str(), &type,
+        &size);
 
     assert(status == NC_NOERR);
-    assert(buffer.empty() || buffer.back() != '\0');
 
-    return std::string(buffer.begin(), buffer.end());
+    return type == NC_CHAR || (type == NC_STRING && size == 1u);
 }
 
 
@@ -66,8 +105,8 @@ bool has_attribute(
     @brief      Return the value of the global attribute 'Conventions' as a
                 collection of strings.
 
-    If the dataset does not contain an global attribute called 'Convensions',
-    then an empty collection is returned.
+    If the dataset does not contain an global attribute called 'Conventions',
+    or if it is not a text, then an empty collection is returned.
 
     The value of the conventions attribute is a whitespace or comma
     separated list of convention names. If a comma is found in the attribute
@@ -83,7 +122,8 @@ std::vector<std::string> conventions(
 {
     std::vector<std::string> values;
 
-    if(has_attribute(dataset, "Conventions")) {
+    if(has_attribute(dataset, "Conventions") &&
+            attribute_is_text(dataset, "Conventions")) {
 
         // Get the attribute value as a string.
         std::string value{attribute<std::string>(dataset, "Conventions")};
-- 
2.43.0


From ab65511fdf4ec2a97f2d2c422d2eb06e770d8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 36/48] fix: a normal distribution without a single mean and
 positive variance aborted instead of being refused

---
 .../fern/language/io/uncertml2/uncertml2_parser.cc  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 4a71876..cdfadfd 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -41,9 +41,15 @@ public:
     std::shared_ptr<fern::NormalDistribution<double> >
         post_NormalDistribution()
     {
-        assert(_means.size() == 1);
-        assert(_variances.size() == 1);
-        assert(_variances[0] >= 0.0);
+        if(_means.size() != 1 || _variances.size() != 1 ||
+                !(_variances[0] > 0.0)) {
+            xml_schema::diagnostics diagnostics;
+            diagnostics.push_back(xml_schema::error(xml_schema::severity::error,
+                "", 1, 1, "a normal distribution has a single mean and a "
+                    "single, positive, variance"));
+            throw xml_schema::parsing(diagnostics);
+        }
+
         return std::make_shared<fern::NormalDistribution<double>>(_means[0],
             std::sqrt(_variances[0]));
     }
@@ -106,7 +112,6 @@ public:
     void item(
         double value)
     {
-        assert(value > 0.0);
         _values.emplace_back(value);
     }
 
-- 
2.43.0


From 9375b4d6ed68faf6f17d09a10055aa55871b0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 37/48] fix: the text of a script had characters instead of 8
 bit numbers

---
 source/fern/language/ast/visitor/module_visitor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 28aa825..3245c35 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -182,7 +182,9 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<int8_t>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    // A number, not a character.
+    _module += (boost::format("%1%") %
+        static_cast<int>(vertex.value())).str();
 }
 
 
@@ -213,7 +215,9 @@ void ModuleVisitor::Visit(
     NumberVertex<uint8_t>& vertex)
 {
     // U?
-    _module += (boost::format("%1%U") % vertex.value()).str();
+    // A number, not a character.
+    _module += (boost::format("%1%U") %
+        static_cast<unsigned int>(vertex.value())).str();
 }
 
 
-- 
2.43.0


From cd0dec3bc25a5be4aa66d1fcb7ab68bce2889b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 38/48] fix: the text of a script had floating point numbers
 with digits missing, or as integers

---
 .../language/ast/visitor/module_visitor.cc    | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 3245c35..2a0bd54 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -8,6 +8,10 @@
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/visitor/module_visitor.h"
 #include <cassert>
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include <boost/format.hpp>
 #include "fern/core/string.h"
 #include "fern/language/ast/core/vertices.h"
@@ -15,6 +19,38 @@
 
 namespace fern {
 namespace language {
+namespace {
+
+//! Text which is read back as \a value.
+template<
+    class T>
+std::string real_number(
+    T const& value)
+{
+    std::string result;
+
+    // The shortest text that has all digits.
+    for(int precision = 6; precision <= std::numeric_limits<T>::max_digits10;
+            ++precision) {
+        std::ostringstream stream;
+        stream << std::setprecision(precision) << value;
+        result = stream.str();
+
+        if(static_cast<T>(std::strtod(result.c_str(), nullptr)) == value) {
+            break;
+        }
+    }
+
+    // Keep it from being read as an integral number.
+    if(result.find_first_of(".en") == std::string::npos) {
+        result += ".0";
+    }
+
+    return result;
+}
+
+} // Anonymous namespace
+
 
 ModuleVisitor::ModuleVisitor(
     size_t tab_size)
@@ -250,14 +286,14 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<float>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    _module += real_number(vertex.value());
 }
 
 
 void ModuleVisitor::Visit(
     NumberVertex<double>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    _module += real_number(vertex.value());
 }
 
 
-- 
2.43.0


From dd9101818e9d4cf01608bdb3c3bd3050bfb2c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 39/48] fix: the text of a script had quotes, backslashes and
 line breaks in strings unescaped

---
 source/fern/language/ast/visitor/module_visitor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 2a0bd54..0e58a03 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -181,7 +181,12 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     StringVertex& vertex)
 {
-    _module += "\"" + vertex.value() + "\"";
+    std::string value = vertex.value();
+    replace(value, "\\", "\\\\");
+    replace(value, "\"", "\\\"");
+    replace(value, "\n", "\\n");
+    replace(value, "\r", "\\r");
+    _module += "\"" + value + "\"";
 }
 
 
-- 
2.43.0


From 094f9edbb2f0bf7931d050a194d9e1107db26bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 40/48] fix: Feature::contains_attribute aborted or threw for
 an attribute that does not exist

---
 source/fern/language/feature/core/feature.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1c6f331..cd76200 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -165,10 +165,17 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _attributes.find(path.generic_string()) != _attributes.end()
-        : static_cast<bool>(attribute(path))
-        ;
+    Path const parent_path(path.parent_path());
+
+    if(!parent_path.generic_string().empty() &&
+            !contains_feature(parent_path)) {
+        return false;
+    }
+
+    auto const& attributes(parent_feature(path)->_attributes);
+
+    return attributes.find(path.filename().generic_string()) !=
+        attributes.end();
 }
 
 
-- 
2.43.0


From e76b4019bf603d891ae5d63db7e6caad022762f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 41/48] fix: Feature::nr_attributes(path) counted the
 attributes of the parent feature

---
 source/fern/language/feature/core/feature.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index cd76200..377a902 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -136,7 +136,8 @@ size_t Feature::nr_attributes() const
 size_t Feature::nr_attributes(
     Path const& path) const
 {
-    return parent_feature(path)->nr_attributes();
+    assert(contains_feature(path));
+    return feature(path)->nr_attributes();
 }
 
 
-- 
2.43.0


From b55f67085393b871c7515025cf0cdbdee0a7acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 42/48] fix: features and attributes at the top could not be
 found by absolute path

---
 source/fern/language/feature/core/feature.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 377a902..6db5878 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -168,7 +168,7 @@ bool Feature::contains_attribute(
 {
     Path const parent_path(path.parent_path());
 
-    if(!parent_path.generic_string().empty() &&
+    if(!parent_path.names().empty() &&
             !contains_feature(parent_path)) {
         return false;
     }
@@ -220,9 +220,9 @@ std::shared_ptr<Attribute> Feature::attribute(
 Feature* Feature::parent_feature(
     Path const& path)
 {
-    assert(path.parent_path().generic_string().empty() ||
+    assert(path.parent_path().names().empty() ||
         contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
+    return path.parent_path().names().empty()
         ? this : feature(path.parent_path()).get();
 }
 
@@ -230,9 +230,9 @@ Feature* Feature::parent_feature(
 Feature const* Feature::parent_feature(
     Path const& path) const
 {
-    assert(path.parent_path().generic_string().empty() ||
+    assert(path.parent_path().names().empty() ||
         contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
+    return path.parent_path().names().empty()
         ? this : feature(path.parent_path()).get();
 }
 
-- 
2.43.0


From b83481ce179ca63e26f7b6dcaed2d38996ac410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 43/48] fix: the blocks of if and while statements were missing
 from the drawing of a syntax tree

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 19b7855..22f09ee 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -426,8 +426,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
@@ -608,8 +608,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
-- 
2.43.0


From 60d8e8c5d6d07355b671bd1db0073b5ab6e5ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 44/48] fix: 8 bit numbers were drawn as the characters with
 these codes

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc       | 2 +-
 source/fern/language/ast/visitor/flowgraph_dot_visitor.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 22f09ee..43e3746 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -156,7 +156,7 @@ void AstDotVisitor::Visit(
                     "];\n")
                     % &vertex
                     % annotate_expression_label(
-                        (boost::format("%1%") % vertex.value()).str(), vertex)
+                        (boost::format("%1%") % +vertex.value()).str(), vertex)
             ).str());
 
             break;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 85081e1..69f520d 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -270,7 +270,7 @@ void FlowgraphDotVisitor::Visit(
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
                 " [label=\"" +
-                (boost::format("%1%") % vertex.value()).str() +
+                (boost::format("%1%") % +vertex.value()).str() +
                 "\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From c995377f3d2298da15a89f33d66f21d4f61298d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 45/48] fix: quotes, backslashes and line breaks made drawings
 that are not valid DOT, or show other text

---
 .../language/ast/visitor/ast_dot_visitor.cc   | 10 +++----
 .../fern/language/ast/visitor/dot_visitor.cc  | 26 +++++++++++++++++++
 .../fern/language/ast/visitor/dot_visitor.h   |  2 ++
 .../ast/visitor/flowgraph_dot_visitor.cc      |  6 ++---
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 43e3746..8355c0e 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -268,7 +268,7 @@ void AstDotVisitor::Visit(
                         "fillcolor=\"%3%\""
                     "];\n")
                     % &vertex
-                    % annotate_expression_label(vertex.name(), vertex)
+                    % annotate_expression_label(escape(vertex.name()), vertex)
                     % (vertex.expression_types().fixed()
                         ? "/spectral11/9" : "/spectral11/2")
             ).str());
@@ -307,7 +307,7 @@ void AstDotVisitor::Visit(
                         "label=\"%2%\" "
                     "];\n")
                     % &vertex
-                    % vertex.name()).str());
+                    % escape(vertex.name())).str());
             break;
         }
         case Mode::ConnectingAst: {
@@ -449,7 +449,7 @@ void AstDotVisitor::Visit(
                         "fillcolor=\"%3%\""
                     "];\n")
                     % &vertex
-                    % annotate_expression_label(vertex.name(), vertex)
+                    % annotate_expression_label(escape(vertex.name()), vertex)
                     % (vertex.expression_types().fixed()
                         ? "/spectral11/9" : "/spectral11/2")
             ).str());
@@ -558,7 +558,7 @@ void AstDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
@@ -636,7 +636,7 @@ void AstDotVisitor::Visit(
                 "subgraph cluster_%1% {\n"
                     "label=\"%2%\";\n")
                 % &vertex
-                % _scope_names.top()).str());
+                % escape(_scope_names.top())).str());
 
             for(auto statement_vertex: vertex.statements()) {
                 add_ast_vertex(vertex, *statement_vertex);
diff --git a/source/fern/language/ast/visitor/dot_visitor.cc b/source/fern/language/ast/visitor/dot_visitor.cc
index 560d67d..2807bd6 100644
--- a/source/fern/language/ast/visitor/dot_visitor.cc
+++ b/source/fern/language/ast/visitor/dot_visitor.cc
@@ -32,5 +32,31 @@ void DotVisitor::add_script(
     _script += string;
 }
 
+
+//! Escape the characters that have a meaning within a quoted label.
+/*!
+  \param     string Text to show in a label.
+  \return    Text to write between the quotes of a label.
+*/
+std::string DotVisitor::escape(
+    std::string const& string)
+{
+    std::string result;
+
+    for(char character: string) {
+        if(character == '\n') {
+            result += "\\n";
+        }
+        else {
+            if(character == '"' || character == '\\') {
+                result += '\\';
+            }
+            result += character;
+        }
+    }
+
+    return result;
+}
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/visitor/dot_visitor.h b/source/fern/language/ast/visitor/dot_visitor.h
index 8dec5b3..74a76ca 100644
--- a/source/fern/language/ast/visitor/dot_visitor.h
+++ b/source/fern/language/ast/visitor/dot_visitor.h
@@ -47,6 +47,8 @@ protected:
 
     void           add_script          (std::string const& string);
 
+    static std::string escape          (std::string const& string);
+
 private:
 
     std::string    _script;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 69f520d..ee6180c 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -139,7 +139,7 @@ void FlowgraphDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"" + vertex.name() +
+                " [label=\"" + escape(vertex.name()) +
                 "\", shape=triangle];\n"
             );
             break;
@@ -225,7 +225,7 @@ void FlowgraphDotVisitor::Visit(
                     vertex.definitions().end()) {
                 add_script(
                     (boost::format("\"%1%\"") % &vertex).str() +
-                    " [label=\"" + vertex.name() + "\"];\n"
+                    " [label=\"" + escape(vertex.name()) + "\"];\n"
                 );
             }
             break;
@@ -386,7 +386,7 @@ void FlowgraphDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From c293384545956cf10a0ed10661119b4b6681d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 46/48] fix: io/core/file.cc did not compile: the permissions
 of std::filesystem are an enum class

---
 source/fern/language/io/core/file.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/io/core/file.cc b/source/fern/language/io/core/file.cc
index 6794029..d81ce73 100644
--- a/source/fern/language/io/core/file.cc
+++ b/source/fern/language/io/core/file.cc
@@ -14,6 +14,15 @@
 namespace fern {
 namespace language {
 
+static bool is_writable(
+    std::filesystem::file_status const& status)
+{
+    namespace fs = std::filesystem;
+
+    return (status.permissions() & fs::perms::owner_write) != fs::perms::none;
+}
+
+
 //! Return whether \a path points to a regular file or a symbolic link pointing to a regular file.
 /*!
   \param     path Path of file to check.
@@ -57,7 +66,7 @@ bool file_is_writable(
         return false;
     }
 
-    if(fs::is_regular_file(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_regular_file(status) && is_writable(status)) {
         return true;
     }
 
@@ -65,7 +74,7 @@ bool file_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_regular_file(status) &&
-        status.permissions() & fs::owner_write;
+        is_writable(status);
 }
 
 
@@ -85,7 +94,7 @@ bool directory_is_writable(
         return false;
     }
 
-    if(fs::is_directory(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_directory(status) && is_writable(status)) {
         return true;
     }
 
@@ -93,7 +102,7 @@ bool directory_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_directory(status) &&
-        status.permissions() & fs::owner_write;
+        is_writable(status);
 }
 
 
-- 
2.43.0


From 4dde63c532e927c8c610fe12f71b67bb8ae7cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 47/48] fix: Fern datasets aborted when asked for something
 below a feature that is not there

---
 source/fern/language/io/fern/hdf5_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/fern/hdf5_file.cc b/source/fern/language/io/fern/hdf5_file.cc
index 99617d5..1bb474c 100644
--- a/source/fern/language/io/fern/hdf5_file.cc
+++ b/source/fern/language/io/fern/hdf5_file.cc
@@ -72,7 +72,7 @@ bool HDF5File::is_group(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
@@ -92,7 +92,7 @@ bool HDF5File::is_dataset(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
-- 
2.43.0


From 69a9d94a5ae72372b3b8e9489a8bcba4df0f4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 48/48] fix: asking whether a Fern dataset can be overwritten
 destroyed it

---
 source/fern/language/io/fern/fern_driver.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/source/fern/language/io/fern/fern_driver.cc b/source/fern/language/io/fern/fern_driver.cc
index 0728227..82a2444 100644
--- a/source/fern/language/io/fern/fern_driver.cc
+++ b/source/fern/language/io/fern/fern_driver.cc
@@ -60,19 +60,13 @@ bool FernDriver::can_open_for_update(
 bool FernDriver::can_open_for_overwrite(
     std::string const& name)
 {
-    bool result = false;
-
-    try {
-        open_file(name, OpenMode::OVERWRITE);
-        result = true;
+    // Creating the file to find out would destroy an existing dataset.
+    if(file_exists(name)) {
+        return file_is_writable(name);
     }
-    catch(...) {
-    }
-
-    return result;
 
-    // return (file_exists(name) && can_open_for_update(name)) ||
-    //     directory_is_writable(Path(name).parent_path());
+    return !directory_is_writable(name) &&
+        directory_is_writable(Path(name).parent_path());
 }
 
 
-- 
2.43.0

