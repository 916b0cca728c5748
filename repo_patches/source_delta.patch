From de7b6dfc942e69b2312d02e7a562c2af3bc2aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 001/116] fix: wake the upgrading reader when writers are
 waiting as well

The last remaining reader that wants to upgrade waits on the same condition
variable as plain writers.  Notifying a single waiter could wake a plain writer,
which goes back to sleep, and all threads deadlock.
---
 include/mutable/util/reader_writer_lock.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..eb56f33 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -138,6 +138,7 @@ class reader_writer_mutex
     public:
     void notify_readers() { cv_readers_.notify_all(); }
     void notify_writer() { cv_writers_.notify_one(); }
+    void notify_writers() { cv_writers_.notify_all(); }
 
     /** Acquire a read lock.  This call blocks the calling thread until a read lock was acquired. */
     void lock_read() {
@@ -208,9 +209,11 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it.  Because plain
+             * writers wait on the same condition variable, we must notify all to be sure to reach the upgrading reader.
+             */
             lock.unlock();
-            notify_writer();
+            notify_writers();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 43bb61810f1f40a7cc3ce81a40becf9e61c2e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 002/116] fix: give up the read lock when upgrade_lock fails to
 upgrade

As documented, and as done by reader_writer_lock::upgrade().
---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index eb56f33..cb14231 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -386,8 +386,8 @@ struct upgrade_lock : protected read_lock
     using read_lock::unlock;
 
     /**
-     * Attempts to upgrade the read lock to a write lock.  Returns a `write_lock` on success.  On failure,
-     * `std::nullopt` is returned and the held read lock is unlocked to prevent deadlocks.
+     * Attempts to upgrade the read lock to a write lock.  Returns an owning `write_lock` on success.  On failure, a
+     * `write_lock` that does not own the lock is returned and the held read lock is unlocked to prevent deadlocks.
      *
      * @see `reader_writer_lock::upgrade()`
      */
@@ -397,6 +397,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From db039262449a953e5a98e30c8cec13c1d9214023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 003/116] fix: move-assignment of reader_writer_lock must
 transfer ownership

The defaulted operator left the source owning the lock, which was then released
twice, and dropped a lock held by the target without releasing it.
---
 include/mutable/util/reader_writer_lock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index cb14231..5f462b9 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -264,7 +264,14 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        if (this != &other) {
+            if (state_ != LOCK_NONE) unlock();
+            rw_mutex_ = other.rw_mutex_;
+            state_ = std::exchange(other.state_, LOCK_NONE);
+        }
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From 2f2a82e826d2955f43249a925e8d3201f63862f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 004/116] fix: cloning a tuple must preserve NULLs

---
 src/IR/Tuple.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..644f525 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,7 +125,9 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
-        if (S[i].type->is_character_sequence()) {
+        if (is_null(i)) {
+            cpy.null(i);
+        } else if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
         } else {
-- 
2.43.0


From 31c439f46372a392be8d430c0f3c128013dd3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 005/116] fix: sort NULLs before all values instead of
 comparing their stale payload

---
 src/backend/StackMachine.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..c0bc970 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1434,24 +1434,30 @@ GE_f: BINARY(std::greater_equal{}, float);
 GE_d: BINARY(std::greater_equal{}, double);
 GE_s: BINARY(0 <= strcmp, char*);
 
-#define CMP(TYPE) { \
+#define CMP(TYPE, COMPARE) { \
     M_insist(top_ >= 2); \
     TYPE rhs = TOP.as<TYPE>(); \
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
     TYPE lhs = TOP.as<TYPE>(); \
     bool is_lhs_null = TOP_IS_NULL; \
-    TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
+    if (is_lhs_null or is_rhs_null) \
+        TOP = int64_t(is_rhs_null) - int64_t(is_lhs_null); /* NULL is less than any value and equal to NULL */ \
+    else \
+        TOP = COMPARE(lhs, rhs); \
+    TOP_IS_NULL = false; \
 } \
 NEXT;
 
-Cmp_i: CMP(int64_t);
-Cmp_f: CMP(float);
-Cmp_d: CMP(double);
-Cmp_b: CMP(bool);
-Cmp_s: BINARY(strcmp, char*);
+#define THREE_WAY(LHS, RHS) int64_t((LHS) >= (RHS)) - int64_t((LHS) <= (RHS))
 
+Cmp_i: CMP(int64_t, THREE_WAY);
+Cmp_f: CMP(float, THREE_WAY);
+Cmp_d: CMP(double, THREE_WAY);
+Cmp_b: CMP(bool, THREE_WAY);
+Cmp_s: CMP(char*, strcmp);
+
+#undef THREE_WAY
 #undef CMP
 
 Like_const: {
-- 
2.43.0


From 877c454cbbebe58586ff2b608005300980732373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 006/116] fix: scan of an aliased table must use the alias to
 locate attributes

---
 src/backend/Interpreter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..7327d5c 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -903,7 +903,8 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(),
+                                            table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From 670f6571a4242bc4b380ee22bacc956b259e8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 007/116] fix: integral division with a NULL operand is NULL
 and must not trap

---
 src/backend/StackMachine.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c0bc970..67a3956 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1264,13 +1264,28 @@ Mul_i: BINARY(std::multiplies{}, int64_t);
 Mul_f: BINARY(std::multiplies{}, float);
 Mul_d: BINARY(std::multiplies{}, double);
 
+/* Integral division and modulo division.  The payload of a NULL operand is meaningless and must not be divided by. */
+#define DIVIDE(OP) { \
+    M_insist(top_ >= 2); \
+    int64_t rhs = TOP.as_i(); \
+    bool is_rhs_null = TOP_IS_NULL; \
+    POP(); \
+    if (TOP_IS_NULL or is_rhs_null) \
+        TOP_IS_NULL = true; \
+    else \
+        TOP = int64_t(TOP.as_i() OP rhs); \
+} \
+NEXT;
+
 /* Divide two values. */
-Div_i: BINARY(std::divides{}, int64_t);
+Div_i: DIVIDE(/);
 Div_f: BINARY(std::divides{}, float);
 Div_d: BINARY(std::divides{}, double);
 
 /* Modulo divide two values. */
-Mod_i: BINARY(std::modulus{}, int64_t);
+Mod_i: DIVIDE(%);
+
+#undef DIVIDE
 
 /* Concatenate two strings. */
 Cat_s: {
-- 
2.43.0


From 979df7f7e0df90222889cddf819ff59ba91cb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 008/116] fix: COUNT of a non-numeric argument must not be cast
 to the aggregate type

---
 src/backend/Interpreter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7327d5c..5214351 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -757,9 +757,14 @@ struct GroupingData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
+                if (fe.get_function().fnid == Function::FN_COUNT) { // COUNT only inspects whether the argument is NULL
+                    sm.emit_St_Tup(0, arg_idx++, arg->type());
+                    arg_types.push_back(arg->type());
+                    continue;
+                }
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, arg->type());
-                arg_types.push_back(arg->type());
+                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
+                arg_types.push_back(agg.get().type());
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
@@ -791,6 +796,11 @@ struct AggregationData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
+                if (fe.get_function().fnid == Function::FN_COUNT) { // COUNT only inspects whether the argument is NULL
+                    sm.emit_St_Tup(0, arg_idx++, arg->type());
+                    arg_types.push_back(arg->type());
+                    continue;
+                }
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
                 sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
                 arg_types.push_back(agg.get().type());
-- 
2.43.0


From c01a55c642027047ccbdc549e5b89c8a9d253634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 009/116] fix: SUM and AVG consider only non-NULL values and
 are NULL without any

---
 src/backend/Interpreter.cpp | 64 +++++++++++++++----------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 5214351..7035100 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -776,6 +776,7 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<uint64_t> num_values; ///< per aggregate, the count of non-NULL arguments aggregated so far
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
@@ -785,9 +786,8 @@ struct AggregationData : OperatorData
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
+        num_values.resize(op.aggregates().size(), 0); // initialize running counts
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -848,9 +848,9 @@ struct HashBasedGroupingData : GroupingData
         }
     };
 
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, per
+     * aggregate, the count of non-NULL arguments aggregated so far. */
+    std::unordered_map<Tuple, std::vector<uint64_t>, hasher, equals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1193,7 +1193,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1227,13 +1226,13 @@ void Pipeline::operator()(const GroupingOperator &op)
 
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL; SUM is NULL iff all values are NULL
                     if (is_null) {
                         if (n->is_floating_point())
                             group.set(key_size + i, 0.); // double precision
                         else
                             group.set(key_size + i, 0); // int
                     }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1242,16 +1241,13 @@ void Pipeline::operator()(const GroupingOperator &op)
                 }
 
                 case Function::FN_AVG: {
-                    if (is_null) {
-                        if (ty->is_floating_point())
-                            group.set(key_size + i, 0.); // double precision
-                        else
-                            group.set(key_size + i, 0); // int
-                    }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL; AVG is NULL iff all values are NULL
+                    if (is_null)
+                        group.set(key_size + i, 0.); // double precision
+                    const auto nth_value = ++entry.second[i];
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_value;
                     break;
                 }
 
@@ -1306,7 +1302,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<uint64_t>(op.aggregates().size(), 0));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1316,10 +1312,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1349,7 +1343,13 @@ void Pipeline::operator()(const AggregationOperator &op)
 
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL; SUM is NULL iff all values are NULL
+                    if (agg_is_null) {
+                        if (n->is_floating_point())
+                            data->aggregates.set(i, 0.); // double precision
+                        else
+                            data->aggregates.set(i, 0L); // int64
+                    }
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1358,10 +1358,13 @@ void Pipeline::operator()(const AggregationOperator &op)
                 }
 
                 case Function::FN_AVG: {
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL; AVG is NULL iff all values are NULL
+                    if (agg_is_null)
+                        data->aggregates.set(i, 0.); // double precision
+                    const auto nth_value = ++data->num_values[i];
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_value;
                     break;
                 }
 
@@ -1560,23 +1563,8 @@ void Interpreter::operator()(const AggregationOperator &op)
                 data->aggregates.set(i, 0); // initialize
                 break;
 
-            case Function::FN_SUM: {
-                auto n = as<const Numeric>(ty);
-                if (n->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
-            case Function::FN_AVG: {
-                if (ty->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
+            case Function::FN_SUM:
+            case Function::FN_AVG:
             case Function::FN_MIN:
             case Function::FN_MAX: {
                 data->aggregates.null(i); // initialize to NULL
-- 
2.43.0


From 3ba51f018c76eb37bf45fe823cc7ffc525cd0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 010/116] fix: grouping must hash and compare string and
 floating-point keys by value

---
 src/backend/Interpreter.cpp | 106 +++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7035100..b9896f9 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -4,12 +4,14 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstdlib>
+#include <cstring>
 #include <iterator>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/Options.hpp>
 #include <mutable/parse/AST.hpp>
 #include <mutable/util/fn.hpp>
 #include <numeric>
+#include <string_view>
 #include <type_traits>
 
 
@@ -603,6 +605,63 @@ struct ProjectionData : OperatorData
     }
 };
 
+/** Callable to compute the hash of the key of a `Tuple`.  The key are the leading fields of the `Tuple`. */
+struct KeyHasher
+{
+    std::vector<const Type*> key_types;
+
+    KeyHasher(std::vector<const Type*> key_types) : key_types(std::move(key_types)) { }
+
+    uint64_t operator()(const Tuple &tup) const {
+        uint64_t hash = 0xcbf29ce484222325;
+        for (std::size_t i = 0; i != key_types.size(); ++i) {
+            hash ^= tup.is_null(i) ? 0 : hash_value(tup[i], *key_types[i]);
+            hash *= 1099511628211;
+        }
+        return hash;
+    }
+
+    private:
+    static uint64_t hash_value(const Value &val, const Type &ty) {
+        if (auto cs = cast<const CharacterSequence>(&ty)) { // hash the characters, not the address
+            auto str = val.as<const char*>();
+            return std::hash<std::string_view>{}(std::string_view(str, strnlen(str, cs->length)));
+        }
+        if (ty.is_float())
+            return std::hash<float>{}(val.as_f());
+        if (ty.is_double())
+            return std::hash<double>{}(val.as_d());
+        return std::hash<Value>{}(val);
+    }
+};
+
+/** Callable to compare two `Tuple`s by their keys.  The key are the leading fields of the `Tuple`. */
+struct KeyEquals
+{
+    std::vector<const Type*> key_types;
+
+    KeyEquals(std::vector<const Type*> key_types) : key_types(std::move(key_types)) { }
+
+    bool operator()(const Tuple &first, const Tuple &second) const {
+        for (std::size_t i = 0; i != key_types.size(); ++i) {
+            if (first.is_null(i) != second.is_null(i)) return false;
+            if (not first.is_null(i) and not equal_value(first[i], second[i], *key_types[i])) return false;
+        }
+        return true;
+    }
+
+    private:
+    static bool equal_value(const Value &first, const Value &second, const Type &ty) {
+        if (auto cs = cast<const CharacterSequence>(&ty)) // compare the characters, not the addresses
+            return strncmp(first.as<const char*>(), second.as<const char*>(), cs->length) == 0;
+        if (ty.is_float())
+            return first.as_f() == second.as_f();
+        if (ty.is_double())
+            return first.as_d() == second.as_d();
+        return first == second;
+    }
+};
+
 struct JoinData : OperatorData
 {
     Pipeline pipeline;
@@ -813,49 +872,22 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** Callable to compute the hash of the keys of a tuple. */
-    struct hasher
-    {
-        std::size_t key_size;
-
-        hasher(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &tup) const {
-            std::hash<Value> h;
-            uint64_t hash = 0xcbf29ce484222325;
-            for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
-                hash *= 1099511628211;
-            }
-            return hash;
-        }
-    };
-
-    /** Callable to compare two tuples by their keys. */
-    struct equals
-    {
-        std::size_t key_size;
-
-        equals(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &first, const Tuple &second) const {
-            for (std::size_t i = 0; i != key_size; ++i) {
-                if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
-                    if (first.get(i) != second.get(i)) return false;
-            }
-            return true;
-        }
-    };
-
     /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, per
      * aggregate, the count of non-NULL arguments aggregated so far. */
-    std::unordered_map<Tuple, std::vector<uint64_t>, hasher, equals> groups;
+    std::unordered_map<Tuple, std::vector<uint64_t>, KeyHasher, KeyEquals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, KeyHasher(get_key_types(op)), KeyEquals(get_key_types(op)))
     { }
+
+    private:
+    static std::vector<const Type*> get_key_types(const GroupingOperator &op) {
+        std::vector<const Type*> types;
+        for (auto [grp, alias] : op.group_by())
+            types.push_back(grp.get().type());
+        return types;
+    }
 };
 
 struct SortingData : OperatorData
-- 
2.43.0


From 8707802be9257e0f2bd4ea701adcde983543c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 011/116] fix: hash join must compare keys by value in their
 common type and never match NULL

---
 src/backend/Interpreter.cpp | 84 ++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index b9896f9..21368d0 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -708,37 +708,68 @@ struct SimpleHashJoinData : JoinData
     std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
     StackMachine build_key; ///< extracts the key of the build input
     StackMachine probe_key; ///< extracts the key of the probe input
-    RefCountingHashMap<Tuple, Tuple> ht; ///< hash table on build input
+    RefCountingHashMap<Tuple, Tuple, KeyHasher, KeyEquals> ht; ///< hash table on build input
 
     Schema key_schema; ///< the `Schema` of the `key`
     Tuple key; ///< `Tuple` to hold the key
 
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
-        , ht(1024)
+        , exprs(decompose(op))
+        , ht(1024, KeyHasher(get_key_types(exprs)), KeyEquals(get_key_types(exprs)))
     {
+        /* Create the tuple holding a key. */
+        for (auto ty : get_key_types(exprs))
+            key_schema.add(C.pool("key"), ty);
+        key = Tuple(key_schema);
+    }
+
+    void load_build_key(const Schema &pipeline_schema) {
+        for (std::size_t i = 0; i != exprs.size(); ++i)
+            load_key(build_key, i, *exprs[i].first, pipeline_schema);
+    }
+
+    void load_probe_key(const Schema &pipeline_schema) {
+        for (std::size_t i = 0; i != exprs.size(); ++i)
+            load_key(probe_key, i, *exprs[i].second, pipeline_schema);
+    }
+
+    /** Returns `true` iff any part of the current `key` is `NULL`.  Such a key never matches. */
+    bool is_key_null() const {
+        for (std::size_t i = 0; i != exprs.size(); ++i) {
+            if (key.is_null(i)) return true;
+        }
+        return false;
+    }
+
+    private:
+    /** Compiles `expr`, converted to the type of the `i`-th part of the key, and stores it to the key. */
+    void load_key(StackMachine &SM, std::size_t i, const ast::Expr &expr, const Schema &pipeline_schema) {
+        auto key_type = key_schema[i].type;
+        SM.emit(expr, pipeline_schema, 1); // compile expr
+        SM.emit_Cast(key_type, expr.type()); // convert to type of the key
+        SM.emit_St_Tup(0, i, key_type); // write result to index i
+    }
+
+    /** Decomposes each join predicate of the form `A.x = B.y` into parts `A.x` and `B.y`, where the former belongs to
+     * the build side and the latter to the probe side. */
+    static std::vector<std::pair<const ast::Expr*, const ast::Expr*>> decompose(const JoinOperator &op) {
+        std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
         auto &schema_lhs = op.child(0)->schema();
 #ifndef NDEBUG
         auto &schema_rhs = op.child(1)->schema();
 #endif
 
-        /* Decompose each join predicate of the form `A.x = B.y` into parts `A.x` and `B.y` and build the schema of the
-         * join key. */
         auto &pred = op.predicate();
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
             auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
+            M_insist(literal.is_equi(), "invalid predicate for simple hash join");
             auto &expr = literal.expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-            M_insist(first->type() == second->type(), "operand types must be equal");
-
-            /* Add type to general key schema. */
-            key_schema.add(C.pool("key"), first->type());
 
             /*----- Decide which side of the join the predicate belongs to. -----*/
             auto required_by_first = first->get_required();
@@ -759,24 +790,24 @@ struct SimpleHashJoinData : JoinData
             }
         }
 
-        /* Create the tuple holding a key. */
-        key = Tuple(key_schema);
+        return exprs;
     }
 
-    void load_build_key(const Schema &pipeline_schema) {
-        for (std::size_t i = 0; i != exprs.size(); ++i) {
-            const ast::Expr *expr = exprs[i].first;
-            build_key.emit(*expr, pipeline_schema, 1); // compile expr
-            build_key.emit_St_Tup(0, i, expr->type()); // write result to index i
-        }
-    }
-
-    void load_probe_key(const Schema &pipeline_schema) {
-        for (std::size_t i = 0; i != exprs.size(); ++i) {
-            const ast::Expr *expr = exprs[i].second;
-            probe_key.emit(*expr, pipeline_schema, 1); // compile expr
-            probe_key.emit_St_Tup(0, i, expr->type()); // write result to index i
+    /** Returns for each pair of `exprs` the `Type` in which they must be compared. */
+    static std::vector<const Type*>
+    get_key_types(const std::vector<std::pair<const ast::Expr*, const ast::Expr*>> &exprs) {
+        std::vector<const Type*> types;
+        for (auto [build, probe] : exprs) {
+            auto ty = build->type();
+            if (ty->is_numeric()) {
+                ty = arithmetic_join(as<const Numeric>(ty), as<const Numeric>(probe->type()));
+            } else if (auto cs = cast<const CharacterSequence>(ty)) {
+                if (as<const CharacterSequence>(probe->type())->length > cs->length)
+                    ty = probe->type(); // the longer sequence holds both
+            }
+            types.push_back(ty);
         }
+        return types;
     }
 };
 
@@ -1048,10 +1079,12 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->is_key_null()) continue; // NULL does not compare equal
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parent may have erased tuples from the block
                         i = 0;
                     }
 
@@ -1081,6 +1114,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->is_key_null()) continue; // NULL does not compare equal
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From a4f97f8d8702528c341695b0740827a96559ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 012/116] fix: queries without a connecting join predicate need
 cross products

---
 src/IR/Optimizer.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..1f77da4 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -309,7 +309,23 @@ void Optimizer::optimize_join_order(const QueryGraph &G, PlanTable &PT) const
     }
 #endif
 
-    M_TIME_EXPR(plan_enumerator()(G, cost_function(), PT), "Plan enumeration", C.timer());
+    const auto &M = G.adjacency_matrix();
+    const Subproblem all_sources = Subproblem::All(G.num_sources());
+    if (M.is_connected(all_sources)) {
+        M_TIME_EXPR(plan_enumerator()(G, cost_function(), PT), "Plan enumeration", C.timer());
+    } else {
+        /* Plan enumerators do not consider cross products.  Compute the join order of each connected component (`DPccp`
+         * does not require that the graph is connected) and combine the components by cross products. */
+        M_TIME_EXPR(C.plan_enumerator(C.pool("DPccp"))(G, cost_function(), PT), "Plan enumeration", C.timer());
+        Subproblem joined;
+        for (Subproblem remaining = all_sources; remaining; ) {
+            const Subproblem component = M.reachable(remaining.begin().as_set());
+            if (joined)
+                PT.update(G, CE, cost_function(), joined, component, cnf::CNF());
+            joined |= component;
+            remaining -= component;
+        }
+    }
 
     if (Options::Get().statistics) {
         std::cout << "Est. total cost: " << PT.get_final().cost
-- 
2.43.0


From 9281cca1232a402475f250d5f281d60f5fb0e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 013/116] fix: minimizing the schema of an aggregation without
 required results

---
 src/IR/Operator.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3026f4e..9d033bc 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -508,32 +508,33 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
 void SchemaMinimizer::operator()(AggregationOperator &op)
 {
-    M_insist(not op.aggregates().empty());
     Catalog &C = Catalog::Get();
     std::ostringstream oss;
 
     Schema required_by_op; // the AggregationOperator doesn't care what later operators require
     Schema ours;
 
-    std::size_t pos_out = 0;
-    for (std::size_t pos_in = 0; pos_in != op.aggregates().size(); ++pos_in) {
-        M_insist(pos_out <= pos_in);
-        auto &agg = op.aggregates()[pos_in];
+    if (not op.aggregates().empty()) { // may be empty if the schema has already been minimized
+        std::size_t pos_out = 0;
+        for (std::size_t pos_in = 0; pos_in != op.aggregates().size(); ++pos_in) {
+            M_insist(pos_out <= pos_in);
+            auto &agg = op.aggregates()[pos_in];
 
-        oss.str("");
-        oss << agg.get();
-        Schema::Identifier agg_id(C.pool(oss.str()));
-
-        if (is_top_of_plan_ or required.has(agg_id)) { // if first, require everything
-            for (auto &arg : agg.get().args)
-                required_by_op |= arg->get_required();
-            op.aggregates()[pos_out++] = std::move(op.aggregates()[pos_in]); // keep aggregate
-            ours.add(op.schema()[agg_id].second);
+            oss.str("");
+            oss << agg.get();
+            Schema::Identifier agg_id(C.pool(oss.str()));
+
+            if (is_top_of_plan_ or required.has(agg_id)) { // if first, require everything
+                for (auto &arg : agg.get().args)
+                    required_by_op |= arg->get_required();
+                op.aggregates()[pos_out++] = std::move(op.aggregates()[pos_in]); // keep aggregate
+                ours.add(op.schema()[agg_id].second);
+            }
         }
+        M_insist(pos_out <= op.aggregates().size());
+        const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
+        op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
     }
-    M_insist(pos_out <= op.aggregates().size());
-    const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-    op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
-- 
2.43.0


From abaa435b148d882ebc0d259fa5fca0fc34535431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 014/116] fix: print decimals with their scale

---
 src/IR/Tuple.cpp             | 17 ++++++++++-------
 src/backend/StackMachine.cpp | 28 ++++++++++++++++++++++++++++
 src/tables/Opcodes.tbl       |  1 +
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 644f525..bc75dfa 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -43,13 +43,16 @@ void Value::print(std::ostream &out, const Type &ty) const
                     break;
 
                 case Numeric::N_Decimal: {
-                    const int64_t div = powi(10L, n.scale);
-                    const int64_t pre = as_i() / div;
-                    const int64_t post = as_i() % div;
-                    out << pre << '.';
-                    auto old_fill = out.fill('0');
-                    out << std::setw(n.scale) << post;
-                    out.fill(old_fill);
+                    const int64_t val = as_i();
+                    const uint64_t abs = val < 0 ? -uint64_t(val) : uint64_t(val);
+                    const uint64_t div = powi<uint64_t>(10, n.scale);
+                    if (val < 0) out << '-';
+                    out << abs / div;
+                    if (n.scale != 0) {
+                        auto old_fill = out.fill('0');
+                        out << '.' << std::setw(n.scale) << abs % div;
+                        out.fill(old_fill);
+                    }
                     break;
                 }
 
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 67a3956..fc06f24 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -721,6 +721,10 @@ void StackMachine::emit_Print(std::size_t ostream_index, const Type *ty)
     } else if (ty->is_date_time()) {
         emit(StackMachine::STR_TO_OPCODE.at("Print_datetime"));
         emit(static_cast<Opcode>(ostream_index));
+    } else if (ty->is_decimal()) {
+        emit(StackMachine::STR_TO_OPCODE.at("Print_decimal"));
+        emit(static_cast<Opcode>(ostream_index));
+        emit(static_cast<Opcode>(as<const Numeric>(ty)->scale));
     } else {
         std::ostringstream oss;
         oss << "Print" << tystr(as<const PrimitiveType>(ty));
@@ -1113,6 +1117,27 @@ Print_datetime: {
 }
 NEXT;
 
+Print_decimal: {
+    std::size_t index = std::size_t(*op_++);
+    const unsigned scale = unsigned(*op_++);
+    std::ostream &out = *reinterpret_cast<std::ostream*>(context_[index].as_p());
+    if (TOP_IS_NULL) {
+        out << "NULL";
+    } else {
+        const int64_t val = TOP.as_i();
+        const uint64_t abs = val < 0 ? -uint64_t(val) : uint64_t(val);
+        const uint64_t div = powi<uint64_t>(10, scale);
+        if (val < 0) out << '-';
+        out << abs / div;
+        if (scale != 0) {
+            const auto oldfill = out.fill('0');
+            out << '.' << std::setw(scale) << abs % div;
+            out.fill(oldfill);
+        }
+    }
+}
+NEXT;
+
 
 /*======================================================================================================================
  * Storage Access Operations
@@ -1606,6 +1631,7 @@ void StackMachine::dump(std::ostream &out) const
             case Opcode::St_Tup_d:
             case Opcode::St_Tup_b:
             case Opcode::Putc:
+            case Opcode::Print_decimal:
                 ++i;
                 out << ' ' << static_cast<int64_t>(ops[i]);
                 /* fall through */
@@ -1618,6 +1644,8 @@ void StackMachine::dump(std::ostream &out) const
             case Opcode::Print_d:
             case Opcode::Print_s:
             case Opcode::Print_b:
+            case Opcode::Print_date:
+            case Opcode::Print_datetime:
             case Opcode::Ld_s:
             case Opcode::Ld_b:
             case Opcode::St_s:
diff --git a/src/tables/Opcodes.tbl b/src/tables/Opcodes.tbl
index 27db9a9..50055fc 100644
--- a/src/tables/Opcodes.tbl
+++ b/src/tables/Opcodes.tbl
@@ -80,6 +80,7 @@ M_OPCODE(Print_s, 0, index)
 M_OPCODE(Print_b, 0, index)
 M_OPCODE(Print_date, 0, index)
 M_OPCODE(Print_datetime, 0, index)
+M_OPCODE(Print_decimal, 0, index, scale)
 
 
 /*======================================================================================================================
-- 
2.43.0


From b106722008537920c4a8b5b3b99667bb9cc02537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 015/116] fix: the second before the epoch is a valid datetime

---
 src/backend/Interpreter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index ab1cddf..6745589 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -290,8 +290,9 @@ struct Interpreter : Backend, ConstOperatorVisitor
 #endif
 
                 /* Convert date time from std::tm to time_t (seconds since epoch). */
+                errno = 0;
                 const time_t time = timegm(&tm);
-                M_insist(time != -1, "datetime out of bounds");
+                M_insist(time != -1 or errno == 0, "datetime out of bounds"); // -1 is the second before the epoch
 
 #if defined(__APPLE__)
                 return int64_t(time - cycles * SECONDS_PER_400_YEAR_CYCLE);
-- 
2.43.0


From ad9ef864f1ce26121e89ab6b27b4da62890cc7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 016/116] fix: SELECT * must expand the sources in the order of
 the FROM clause

---
 src/parse/Sema.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..b0edb00 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1,5 +1,6 @@
 #include "parse/Sema.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/io/Reader.hpp>
@@ -1066,7 +1067,14 @@ void Sema::operator()(SelectClause &c)
             diag.w(c.select_all.pos) << "The '*' has no meaning in this query.  Did you forget the GROUP BY clause?.\n";
         } else {
             /* The '*' in the SELECT clause selects all attributes of all sources. */
-            for (auto &[src_name, src] : Ctx.sources) {
+            std::vector<SemaContext::source_table::value_type*> sources; // in the order of the FROM clause
+            for (auto &entry : Ctx.sources)
+                sources.emplace_back(&entry);
+            std::sort(sources.begin(), sources.end(), [](auto first, auto second) {
+                return first->second.second < second->second.second;
+            });
+            for (auto entry : sources) {
+                auto &[src_name, src] = *entry;
                 if (auto ref = std::get_if<std::reference_wrapper<const Table>>(&src.first)) {
                     /* The source is a database table. */
                     auto &tbl = ref->get();
-- 
2.43.0


From 9de9631d04750220e7c3be72e0e17b1ed5241d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 017/116] fix: arguments of aggregates must not refer to
 grouping keys or results

---
 src/parse/Sema.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index b0edb00..8bc7856 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -515,9 +515,23 @@ void Sema::operator()(FnApplicationExpr &e)
     M_insist(bool(d));
     M_insist(not d->type_, "This identifier has already been analyzed.");
 
-    /* Analyze arguments. */
+    /* Analyze arguments.  The argument of an aggregate function is evaluated per tuple, *before* grouping.  Hence, it
+     * must neither refer to a grouping key nor to a result but to the values of the sources. */
+    auto is_aggregate = [&]() -> bool {
+        try {
+            auto name = d->attr_name.text.assert_not_none();
+            auto fn = C.has_database_in_use() ? C.get_database_in_use().get_function(name) : C.get_function(name);
+            return fn->is_aggregate();
+        } catch (std::out_of_range) {
+            return false; // reported below
+        }
+    };
+    const auto stage = Ctx.stage;
+    if (stage > SemaContext::S_GroupBy and is_aggregate())
+        Ctx.stage = SemaContext::S_Where;
     for (auto &arg : e.args)
         (*this)(*arg);
+    Ctx.stage = stage;
 
     /* Lookup the function. */
     if (C.has_database_in_use()) {
-- 
2.43.0


From 6834f1e07c55c4a2b45ed80c5c09851f698beac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 018/116] fix: sorting no tuples must not fail the cast of the
 missing operator data

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 21368d0..90e7ce6 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1651,7 +1651,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From fe99ed934c68319c90ed9e0efaa2de722dfdb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 019/116] fix: LIMIT 0 yields no rows and LIMIT plus OFFSET
 must not overflow

---
 include/mutable/IR/QueryGraph.hpp | 2 +-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 3 ++-
 src/IR/QueryGraph2SQL.cpp         | 2 +-
 src/backend/Interpreter.cpp       | 9 +++++++--
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index fb3df20..63e3c45 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -187,7 +187,7 @@ struct M_EXPORT QueryGraph
     std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates_; ///< the aggregates to compute
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
-    struct { uint64_t limit = 0, offset = 0; } limit_; ///< limit: limit and offset
+    struct { uint64_t limit = 0, offset = 0; bool is_limited = false; } limit_; ///< limit: limit and offset, if limited
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 1f77da4..6f98818 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -462,7 +462,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     /* Limit. */
-    if (G.limit().limit or G.limit().offset) {
+    if (G.limit().is_limited) { // also with a limit of 0
         /* Compute `DataModel` after limit. */
         auto new_model = CE.estimate_limit(G, *entry.model, G.limit().limit, G.limit().offset);
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 0d67996..6e2bc8b 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1876,6 +1876,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     /* Add limit. */
     if (stmt.limit) {
         auto LIMIT = as<ast::LimitClause>(stmt.limit.get());
+        graph_->limit_.is_limited = true;
         errno = 0;
         graph_->limit_.limit = strtoull(*(LIMIT->limit.text), nullptr, 0);
         M_insist(errno == 0);
@@ -1976,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
         << "<TABLE BORDER=\"0\" CELLPADDING=\"0\" CELLSPACING=\"0\">\n";
 
     /* Limit */
-    if (limit_.limit != 0 or limit_.offset != 0) {
+    if (limit_.is_limited) {
         out << "             <TR><TD ALIGN=\"LEFT\">\n"
             << "               <B>λ</B><FONT POINT-SIZE=\"9\">"
             << limit_.limit << ", " << limit_.offset
diff --git a/src/IR/QueryGraph2SQL.cpp b/src/IR/QueryGraph2SQL.cpp
index 7e084b8..4a022d6 100644
--- a/src/IR/QueryGraph2SQL.cpp
+++ b/src/IR/QueryGraph2SQL.cpp
@@ -85,7 +85,7 @@ void QueryGraph2SQL::translate(const QueryGraph &graph)
         }
     }
 
-    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; limit != 0 or offset != 0 ) {
+    if (auto [limit, offset, is_limited] = graph_->limit(); is_limited) {
         out_ << " LIMIT " << limit;
         if (offset != 0)
             out_ << " OFFSET " << offset;
diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 90e7ce6..69dbc89 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1238,8 +1238,13 @@ void Pipeline::operator()(const LimitOperator &op)
 {
     auto data = as<LimitData>(op.data());
 
+    /* The position after the last tuple to produce; must not overflow. */
+    const auto end = op.limit() > std::numeric_limits<std::size_t>::max() - op.offset()
+                   ? std::numeric_limits<std::size_t>::max()
+                   : op.offset() + op.limit();
+
     for (auto it = block_.begin(); it != block_.end(); ++it) {
-        if (data->num_tuples < op.offset() or data->num_tuples >= op.offset() + op.limit())
+        if (data->num_tuples < op.offset() or data->num_tuples >= end)
             block_.erase(it); /* discard this tuple */
         ++data->num_tuples;
     }
@@ -1247,7 +1252,7 @@ void Pipeline::operator()(const LimitOperator &op)
     if (not block_.empty())
         op.parent()->accept(*this);
 
-    if (data->num_tuples >= op.offset() + op.limit())
+    if (data->num_tuples >= end)
         throw LimitOperator::stack_unwind(); // all tuples produced, now unwind the stack
 }
 
-- 
2.43.0


From e81bd2e159c99a87050d4d5d60fcf49bb979af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 020/116] fix: schemas match irrespective of whether a grouping
 key is scalar or vectorial

---
 include/mutable/catalog/Schema.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..1dad47a 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -261,7 +261,12 @@ inline Schema operator&(const Schema &left, const Schema &right)
     for (auto &e : left) {
         auto it = right.find(e.id);
         if (it != right.end()) {
-            if (e.type != it->type)
+            /* A grouping key is vectorial before and scalar after the grouping; both denote the same values. */
+            auto pt_left = cast<const PrimitiveType>(e.type);
+            auto pt_right = cast<const PrimitiveType>(it->type);
+            const bool types_match = pt_left and pt_right ? pt_left->as_vectorial() == pt_right->as_vectorial()
+                                                          : e.type == it->type;
+            if (not types_match)
                 throw invalid_argument("type mismatch");
             res.add(e.id, e.type, e.constraints | it->constraints); // merge constraints from both
         }
-- 
2.43.0


From 5af150f236e898d4a143b4ebf596fc36efa2ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 021/116] fix: operators that pass tuples on in place must
 agree with the schema of their child

---
 src/IR/Operator.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 9d033bc..113a328 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -360,6 +360,17 @@ struct SchemaMinimizer : OperatorVisitor
     {
         add_constraints(schema, constraints, schema.num_entries(), excluded_constraints);
     }
+
+    /** Operators that pass on the tuples of their child *in place* must locate every entry where their child does.  If
+     * \p schema is not a prefix of \p child, adopt the schema of \p child. */
+    void align_in_place(Schema &schema, const Schema &child)
+    {
+        bool is_prefix = schema.num_entries() <= child.num_entries();
+        for (std::size_t idx = 0; is_prefix and idx != schema.num_entries(); ++idx)
+            is_prefix = schema[idx].id == child[idx].id;
+        if (not is_prefix)
+            schema = child;
+    }
 };
 
 void SchemaMinimizer::operator()(ScanOperator &op)
@@ -401,6 +412,7 @@ void SchemaMinimizer::operator()(FilterOperator &op)
         required |= required_by_op; // add what's required to evaluate the filter predicate
     }
     (*this)(*op.child(0));
+    align_in_place(op.schema(), op.child(0)->schema());
     add_constraints(op.schema(), op.child(0)->schema()); // add constraints from child
 }
 
@@ -557,6 +569,7 @@ void SchemaMinimizer::operator()(SortingOperator &op)
         required |= required_by_op; // add what we require to compute the order
     }
     (*this)(*op.child(0));
+    align_in_place(op.schema(), op.child(0)->schema());
     add_constraints(op.schema(), op.child(0)->schema()); // add constraints from child
 }
 
-- 
2.43.0


From e0105e1ad6329e959632bf9caca001ba1636445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 022/116] fix: keep the warning about aggregating a grouping
 key

---
 src/parse/Sema.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 8bc7856..ad0d067 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -595,7 +595,11 @@ void Sema::operator()(FnApplicationExpr &e)
             }
             M_insist(arg.type()->is_numeric());
             const Numeric *arg_type = cast<const Numeric>(arg.type());
-            if (not arg_type->is_vectorial()) {
+            /* Within a group, a grouping key is a scalar. */
+            const bool is_grouping_key = stage > SemaContext::S_GroupBy and
+                std::any_of(Ctx.grouping_keys.begin(), Ctx.grouping_keys.end(),
+                            [&arg](auto &key) { return key.second.get() == arg; });
+            if (not arg_type->is_vectorial() or is_grouping_key) {
                 diag.w(d->attr_name.pos) << "Argument of aggregate is not of vectorial type.  "
                                             "(Aggregates over scalars are discouraged.)\n";
             }
-- 
2.43.0


From 5ef72d1cad0728cdcccdbf6b17ad8d074c079b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 023/116] fix: DEFAULT is NULL and hence invalid for a NOT NULL
 attribute

---
 src/parse/Sema.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ad0d067..e61e100 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1897,7 +1897,10 @@ void Sema::operator()(InsertStmt &s)
                 }
 
                 case InsertStmt::I_Default:
-                    /* TODO has default? */
+                    /* Attributes have no explicit default value, hence the default is NULL. */
+                    if (attr.not_nullable)
+                        diag.e(s.table_name.pos) << "Value DEFAULT is not valid for attribute " << attr.name
+                                                 << " declared as NOT NULL.\n";
                     break;
             }
         }
-- 
2.43.0


From 7c08b930dcb8f1a2cdc70d09c8653a1296bd31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 024/116] fix: values of a tuple must not leak into defaulted
 fields of the next, NULL must respect hidden attributes

---
 src/catalog/DatabaseCommand.cpp | 3 ++-
 src/mutable.cpp                 | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..8116bca 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -155,7 +155,7 @@ void InsertRecords::execute(Diagnostic&)
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
@@ -169,6 +169,7 @@ void InsertRecords::execute(Diagnostic&)
                     break;
             }
         }
+        tup.clear(); // do not let values of the preceding tuple leak into defaulted fields
         Tuple *args[] = { &tup };
         get_tuple(args);
 
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..9cf0548 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -215,6 +215,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                         break;
                 }
             }
+            tup.clear(); // do not let values of the preceding tuple leak into defaulted fields
             Tuple *args[] = { &tup };
             get_tuple(args);
             W.append(tup);
-- 
2.43.0


From 3f778d5d6fb9fdbc2eb31c659dc44b2dba399463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 025/116] fix: round instead of truncate when converting
 floating-point numbers to decimals

---
 src/backend/StackMachine.cpp | 9 +++++++++
 src/tables/Opcodes.tbl       | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index fc06f24..650cc38 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1,6 +1,7 @@
 #include "backend/StackMachine.hpp"
 
 #include "backend/Interpreter.hpp"
+#include <cmath>
 #include <ctime>
 #include <functional>
 #include <mutable/util/fn.hpp>
@@ -210,6 +211,8 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
         std::string tystr_from = tystr(from_ty);
         /* Cast LHS if necessary. */
         if (tystr_from != tystr_to) {
+            if (to_ty->is_decimal() and from_ty->is_floating_point())
+                stack_machine_.emit(StackMachine::STR_TO_OPCODE.at("Round" + tystr_from)); // to nearest decimal
             std::string opstr = "Cast" + tystr_to + tystr_from;
             auto opcode = StackMachine::STR_TO_OPCODE.at(opstr);
             stack_machine_.emit(opcode);
@@ -774,6 +777,7 @@ void StackMachine::emit_Cast(const Type *to_ty, const Type *from_ty)
                         case Numeric::N_Decimal: /* float -> decimal */
                             add_and_emit_load(float(powi(10L, n_to->scale)));
                             emit_Mul_f();
+                            emit_Round_f(); // to nearest decimal
                             emit_Cast_i_f();
                             return;
 
@@ -791,6 +795,7 @@ void StackMachine::emit_Cast(const Type *to_ty, const Type *from_ty)
                         case Numeric::N_Decimal: /* double -> decimal */
                             add_and_emit_load(double(powi(10L, n_to->scale)));
                             emit_Mul_d();
+                            emit_Round_d(); // to nearest decimal
                             emit_Cast_i_d();
                             return;
 
@@ -1580,6 +1585,10 @@ Cast_f_d: UNARY((float), double);
 Cast_d_i: UNARY((double), int64_t);
 Cast_d_f: UNARY((double), float);
 
+/* Round to nearest integral value. */
+Round_f: UNARY(std::round, float);
+Round_d: UNARY(std::round, double);
+
 #undef BINARY
 #undef UNARY
 
diff --git a/src/tables/Opcodes.tbl b/src/tables/Opcodes.tbl
index 50055fc..93fbc86 100644
--- a/src/tables/Opcodes.tbl
+++ b/src/tables/Opcodes.tbl
@@ -275,3 +275,7 @@ M_OPCODE(Cast_f_d, 0)
 /* Cast to double. */
 M_OPCODE(Cast_d_i, 0)
 M_OPCODE(Cast_d_f, 0)
+
+/* Round to nearest integral value. */
+M_OPCODE(Round_f, 0)
+M_OPCODE(Round_d, 0)
-- 
2.43.0


From 334b1c082e5daf9784e33b45098a12bbd009e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 026/116] fix: stack machines must be able to address more than
 256 context values

---
 src/backend/StackMachine.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/backend/StackMachine.hpp b/src/backend/StackMachine.hpp
index 86b2bfe..884b283 100644
--- a/src/backend/StackMachine.hpp
+++ b/src/backend/StackMachine.hpp
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <mutable/catalog/Schema.hpp>
 #include <mutable/IR/Tuple.hpp>
+#include <type_traits>
 
 
 namespace m {
@@ -29,7 +31,8 @@ struct StackMachine
 
     static constexpr std::size_t SIZE_OF_MEMORY = 4 * 1024; // 4 KiB
 
-    enum class Opcode : uint8_t
+    /** Opcodes and their operands share the opcode sequence; the type must be large enough for indices of the context. */
+    enum class Opcode : uint16_t
     {
 #define M_OPCODE(CODE, ...) CODE,
 #include "tables/Opcodes.tbl"
@@ -129,14 +132,14 @@ struct StackMachine
      * the opcode `Pop`, we will define a function `emit_Pop()`, that appends the `Pop` opcode to the current opcode
      * sequence.  For opcodes that require an argument, a function with the respective parameter is defined and that
      * parameter is inserted into the opcode sequence.  For example, the opcode `Ld_Ctx` requires a single parameter
-     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint8_t idx)`, that first
+     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint16_t idx)`, that first
      * appends the `Ld_Ctx` opcode to the opcode sequence and then appends the `idx` parameter to the opcode sequence.
      */
 #define SELECT(XXX, _1, _2, _3, FN, ...) FN(__VA_ARGS__)
 #define ARGS_0(XXX, ...)
-#define ARGS_1(I, XXX, ARG0, ...) uint8_t ARG0
-#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint8_t ARG0, uint8_t ARG1
-#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint8_t ARG0, uint8_t ARG1, uint8_t ARG2
+#define ARGS_1(I, XXX, ARG0, ...) uint16_t ARG0
+#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint16_t ARG0, uint16_t ARG1
+#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint16_t ARG0, uint16_t ARG1, uint16_t ARG2
 #define ARGS(...) SELECT(__VA_ARGS__, ARGS_3, ARGS_2, ARGS_1, ARGS_0, __VA_ARGS__)
 #define PUSH_0(XXX, ...)
 #define PUSH_1(I, XXX, ARG0, ...) \
@@ -193,6 +196,8 @@ struct StackMachine
     /** Appends the `Value` `val` to the context and returns its assigned index. */
     std::size_t add(Value val) {
         auto idx = context_.size();
+        M_insist(idx <= std::numeric_limits<std::underlying_type_t<Opcode>>::max(),
+                 "context index must be encodable as operand");
         context_.push_back(val);
         return idx;
     }
-- 
2.43.0


From 28d3546d0b960d3f88b8e44cfcd413142badaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 027/116] fix: strings of more than 4 KiB in total must not
 overflow the memory of the stack machine

---
 src/backend/StackMachine.cpp | 23 ++++++++++++++++-------
 src/backend/StackMachine.hpp |  3 +++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 650cc38..be090a3 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -878,6 +878,16 @@ void StackMachine::operator()(Tuple **tuples) const
     top_ = 0; // points to the top of the stack, i.e. the top-most entry
     op_ = ops.cbegin();
     auto p_mem = memory_; // pointer to free memory; used like a linear allocator
+    overflow_memory_.clear();
+
+    /* Allocates `size` bytes that live until the next evaluation of this `StackMachine`. */
+    auto allocate = [&](std::size_t size) -> char* {
+        if (size > std::size_t(memory_ + SIZE_OF_MEMORY - p_mem)) // insufficient memory left
+            return reinterpret_cast<char*>(overflow_memory_.emplace_back(std::make_unique<uint8_t[]>(size)).get());
+        auto ptr = reinterpret_cast<char*>(p_mem);
+        p_mem += size;
+        return ptr;
+    };
 
 #define NEXT goto *labels[std::size_t(*op_++)]
 
@@ -1169,10 +1179,10 @@ Ld_s: {
     uint64_t length = TOP.as_i();
     POP();
     void *ptr = TOP.as_p();
-    strncpy(reinterpret_cast<char*>(p_mem), reinterpret_cast<char*>(ptr), length);
-    p_mem[length] = 0; // always add terminating NUL byte, no matter whether this is a CHAR or VARCHAR
-    TOP = p_mem; // a pointer
-    p_mem += length + 1;
+    char *dest = allocate(length + 1);
+    strncpy(dest, reinterpret_cast<char*>(ptr), length);
+    dest[length] = 0; // always add terminating NUL byte, no matter whether this is a CHAR or VARCHAR
+    TOP = reinterpret_cast<void*>(dest); // a pointer
 }
 NEXT;
 
@@ -1336,7 +1346,7 @@ Cat_s: {
     }
 
     M_insist(not rhs_is_null and not lhs_is_null);
-    char *dest = reinterpret_cast<char*>(p_mem);
+    char *dest = allocate(strlen(lhs.as<char*>()) + strlen(rhs.as<char*>()) + 1);
     TOP = dest;
     /* Append LHS. */
     for (auto src = lhs.as<char*>(); *src; ++src, ++dest)
@@ -1344,8 +1354,7 @@ Cat_s: {
     /* Append RHS. */
     for (auto src = rhs.as<char*>(); *src; ++src, ++dest)
         *dest = *src;
-    *dest++ = 0; // terminating NUL byte
-    p_mem = reinterpret_cast<uint8_t*>(dest);
+    *dest = 0; // terminating NUL byte
 }
 NEXT;
 
diff --git a/src/backend/StackMachine.hpp b/src/backend/StackMachine.hpp
index 884b283..fbfd42a 100644
--- a/src/backend/StackMachine.hpp
+++ b/src/backend/StackMachine.hpp
@@ -2,9 +2,11 @@
 
 #include <cstdint>
 #include <limits>
+#include <memory>
 #include <mutable/catalog/Schema.hpp>
 #include <mutable/IR/Tuple.hpp>
 #include <type_traits>
+#include <vector>
 
 
 namespace m {
@@ -71,6 +73,7 @@ struct StackMachine
     mutable decltype(ops)::const_iterator op_; ///< the next operation to execute
     mutable std::size_t top_ = 0; ///< the top of the stack
     mutable uint8_t memory_[SIZE_OF_MEMORY]; ///< memory usable by the stack machine, e.g. to work on BLOBs
+    mutable std::vector<std::unique_ptr<uint8_t[]>> overflow_memory_; ///< memory for objects that do not fit in `memory_`
 
     public:
     /** Create a `StackMachine` that does not accept input. */
-- 
2.43.0


From 5f3ede5445c0e59f9dac91788465bc5197d7e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 028/116] fix: PAX blocks of a single tuple have no stride

---
 src/storage/DataLayoutFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..eee78ad 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -212,14 +212,15 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     /*----- Construct DataLayout. -----*/
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
+    const bool has_stride = num_rows_per_block != 1; // there must be no stride without repetition
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], has_stride ? types[idx]->size() : 0);
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ has_stride ? null_bitmap_size_in_bits : 0
         );
     }
 
-- 
2.43.0


From 353b38563577faaec5961e623d45cf8f0d887e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 029/116] fix: rows that exceed a PAX block because of padding
 need another block

---
 src/storage/DataLayoutFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index eee78ad..7ecc07a 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -180,7 +180,8 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
                 (num_rows_per_block / num_simd_lanes) * num_simd_lanes; // floor to multiple of possible number of SIMD lanes
         if (options::pax_pack_one_tuple_less and num_rows_per_block > 1)
             --num_rows_per_block;
-        num_blocks_per_row = (row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
+        /* A row that does not fit in a single block, considering the padding, spans multiple blocks. */
+        num_blocks_per_row = (row_size_in_bits + num_not_byte_aligned * 7 + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
     }
 
     /*----- Compute column offsets. -----*/
-- 
2.43.0


From 51bedd4da5f34e49cfe5a12328af8728773f76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 030/116] fix: a date or datetime without its separators is
 invalid

---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..f6beaa4 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -235,17 +235,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From e63de0e63222467c097923ecc1974d7ef1aca4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 031/116] fix: February 29 of a common year is no valid
 datetime, it would be stored as March 1

---
 src/parse/Sema.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index e61e100..cd26eb2 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -445,7 +445,8 @@ void Sema::operator()(Constant &e)
                 e.type_ = Type::Get_Error();
                 return;
             }
-            if (day < 1 or (month == 2 and day > 29)
+            const bool is_leap_year = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0);
+            if (day < 1 or (month == 2 and day > (is_leap_year ? 29 : 28))
                 or ((month == 4 or month == 6 or month == 9 or month == 11) and day > 30)
                 or ((month == 1 or month == 3 or month == 5 or month == 7 or month == 8 or month == 10 or month == 12)
                     and day > 31)) {
-- 
2.43.0


From a0ca23edc3cc7edb084268ef02831bd7990b01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 032/116] fix: byte 0xFF in a DSV file is not the end of the
 file

---
 include/mutable/io/Reader.hpp | 15 ++++++++++-----
 src/io/DSVReader.cpp          | 32 ++++++++++++++++----------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..6e9a848 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -71,7 +71,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     Config cfg_;
 
     Position pos;
-    char c;
+    int c; ///< the current character as `unsigned char` or `EOF`
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -118,15 +118,20 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     void push() { buf.push_back(c); step(); }
 
-    bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
+    /** Returns `true` iff the current character is `chr`. */
+    bool is(char chr) const { return c == static_cast<unsigned char>(chr); }
+    /** Returns `true` iff the current character terminates an unquoted cell. */
+    bool is_end_of_cell() const { return c == EOF or c == '\n' or is(config().delimiter); }
+
+    bool accept(char chr) { if (is(chr)) { step(); return true; } return false; }
 
     void discard_cell() {
-        if (c == config().quote) {
+        if (is(config().quote)) {
             step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
+            while (c != EOF and c != '\n' and not is(config().quote)) { step(); }
             accept(config().quote);
         } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+            while (not is_end_of_cell()) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..d1dfbdb 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -53,7 +53,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     auto read_cell = [&]() -> ThreadSafePooledString {
         buf.clear();
-        while (c != EOF and c != '\n' and c != config().delimiter) {
+        while (not is_end_of_cell()) {
             buf.push_back(c);
             step();
         }
@@ -70,7 +70,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 attr = &table.at(name);
             } catch (std::out_of_range) { /* nothing to do */ }
             columns.push_back(attr);
-            if (c == config().delimiter)
+            if (is(config().delimiter))
                 step(); // discard delimiter
         }
         M_insist(c == EOF or c == '\n');
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
@@ -155,7 +155,7 @@ end_of_row:
 void DSVReader::operator()(Const<Boolean>&)
 {
     buf.clear();
-    while (c != EOF and c != '\n' and c != config().delimiter) { push(); }
+    while (not is_end_of_cell()) { push(); }
     buf.push_back(0);
     if (streq("TRUE", &buf[0]))
         tup.set(col_idx, true);
@@ -175,11 +175,11 @@ void DSVReader::operator()(Const<CharacterSequence>&)
     if (accept(config().quote)) {
         if (config().escape == config().quote) { // RFC 4180
             while (c != EOF) {
-                if (c != config().quote) {
+                if (not is(config().quote)) {
                     push();
                 } else {
                     step();
-                    if (c == config().quote)
+                    if (is(config().quote))
                         push();
                     else
                         break;
@@ -187,10 +187,10 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         } else {
             while (c != EOF) {
-                if (c == config().quote) {
+                if (is(config().quote)) {
                     step();
                     break;
-                } else if (c == config().escape) {
+                } else if (is(config().escape)) {
                     step();
                     push();
                 } else {
@@ -199,12 +199,12 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         }
     } else {
-        while (c != EOF and c != '\n' and c != config().delimiter) {
-            if (c == config().quote) {
+        while (not is_end_of_cell()) {
+            if (is(config().quote)) {
                 diag.e(pos) << "WARNING: Illegal character " << config().quote << " found in unquoted string.\n";
                 /* Entire cell is discarded. */
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             } else
                 push();
@@ -291,10 +291,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
             else
                 accept('+');
             int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             }
             if (is_neg) i = -i;
@@ -327,10 +327,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (is_dec(c)) { step(); }
                 d += d >= 0 ? post_dot : -post_dot;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             }
             if (is_neg) d = -d;
@@ -340,7 +340,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
 
         case Numeric::N_Float: {
             std::string float_str;
-            while(c != EOF and c != '\n' and c != config().delimiter) {
+            while (not is_end_of_cell()) {
                 float_str += c;
                 step();
             }
-- 
2.43.0


From e035e10ea4ebe8c1301f9e479a9a0ee00bc17531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 033/116] fix: an empty last field of a DSV file without final
 newline is NULL

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index d1dfbdb..b22cd89 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
+                if ((i == columns.size() - 1 and (c == '\n' or c == EOF)) or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From 6cc916667bcfcc71d8b02a07e0197162c894c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 034/116] fix: drop DSV rows with too many fields, they shifted
 all following rows

---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index b22cd89..2245076 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -125,6 +125,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From eef0d9aaae0ff518fa4ab93e7391864b1af759c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 035/116] fix: an invalid Boolean of a DSV file must not repeat
 the value of the previous row

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 2245076..b8e94c1 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -163,8 +163,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From ff70865c5dd1bfe59bceda665976110153c2f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 036/116] fix: floating-point numbers below the minimum of the
 type are clamped to the minimum

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index b8e94c1..52bd31b 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -361,7 +361,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 d = std::numeric_limits<double>::max();
             } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = std::numeric_limits<double>::lowest();
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
-- 
2.43.0


From 815efd218505ed69161e2670ac1df01590477c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 037/116] fix: an escape character at the end of a DSV file
 does not escape the end of the file

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 52bd31b..d30399c 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -196,7 +196,7 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                     break;
                 } else if (is(config().escape)) {
                     step();
-                    push();
+                    if (c != EOF) push();
                 } else {
                     push();
                 }
-- 
2.43.0


From 902d1a28fb86727b6d5afa3ff6310df46a57f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 038/116] fix: skipping an empty headline must not skip the
 first row

---
 src/io/DSVReader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index d30399c..af94f06 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -79,8 +79,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
-            c = '\n';
+            discard_row(); // skip entire line
             step(); // skip newline
         }
     }
-- 
2.43.0


From 702a73929fb33a626bd0b6cdb7ab1101e816e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 039/116] fix: cells of ignored DSV columns may be quoted, and
 a quote in the remainder of a cell opens no string

---
 include/mutable/io/Reader.hpp | 23 +++++++++++++++++------
 src/io/DSVReader.cpp          |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 6e9a848..845a69f 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -125,13 +125,24 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     bool accept(char chr) { if (is(chr)) { step(); return true; } return false; }
 
+    /** Discards the remainder of the current cell, after its value has been read. */
+    void discard_remainder() { while (not is_end_of_cell()) step(); }
+    /** Discards an entire cell, which may be a quoted string that contains delimiters, newlines, or escaped quotes. */
     void discard_cell() {
-        if (is(config().quote)) {
-            step();
-            while (c != EOF and c != '\n' and not is(config().quote)) { step(); }
-            accept(config().quote);
-        } else
-            while (not is_end_of_cell()) { step(); }
+        if (accept(config().quote)) {
+            while (c != EOF) {
+                if (config().escape != config().quote and is(config().escape)) {
+                    step();
+                    if (c != EOF) step();
+                } else if (accept(config().quote)) {
+                    if (config().escape != config().quote or not accept(config().quote))
+                        break;
+                } else {
+                    step();
+                }
+            }
+        }
+        discard_remainder();
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index af94f06..9d1b15e 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -116,7 +116,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 }
                 col_idx = col->id;
                 (*this)(*col->type); // dynamic dispatch based on column type
-                discard_cell(); // discard remainder of the cell
+                discard_remainder();
             } else {
                 discard_cell();
             }
-- 
2.43.0


From 3a2c25b699fa5ccb7203ec2178748237a6b9429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 040/116] fix: integers and decimals of a DSV file without
 digits or out of range are invalid

---
 include/mutable/io/Reader.hpp |  5 +++-
 src/io/DSVReader.cpp          | 54 +++++++++++++++++++++++++----------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 845a69f..065c2a3 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -146,7 +146,10 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
-    int64_t read_unsigned_int();
+    /** Appends the current character, a decimal digit, to `i`.  Returns `false` iff `i` overflows. */
+    bool append_digit(int64_t &i, bool is_neg) const;
+    /** Reads a sequence of decimal digits and appends them to `i`.  Returns `false` iff `i` overflows. */
+    bool read_digits(int64_t &i, bool is_neg);
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 9d1b15e..e4e2887 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -286,6 +286,12 @@ invalid:
 
 void DSVReader::operator()(Const<Numeric> &ty)
 {
+    /* Returns `true` iff `value` can be represented by the type of the column. */
+    auto is_in_range = [&ty](int64_t value) {
+        const auto bits = ty.size();
+        return bits >= 64 or (value >= -(int64_t(1) << (bits - 1)) and value < (int64_t(1) << (bits - 1)));
+    };
+
     switch (ty.kind) {
         case Numeric::N_Int: {
             bool is_neg = false;
@@ -293,14 +299,21 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
+            int64_t i = 0;
+            bool is_valid = is_dec(c); // at least one digit is required
+            if (not read_digits(i, is_neg))
+                is_valid = false;
             if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
                 while (not is_end_of_cell()) step();
                 return;
             }
-            if (is_neg) i = -i;
+            if (not is_valid or not is_in_range(i)) {
+                diag.e(pos) << "WARNING: Invalid integer or integer out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
             tup.set(col_idx, i);
             break;
         }
@@ -313,22 +326,20 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            int64_t d = 0;
+            bool is_valid = is_dec(c); // at least one digit is required, before or after the dot
+            bool is_overflow = not read_digits(d, is_neg);
+            auto n = scale;
             if (accept('.')) {
+                is_valid = is_valid or is_dec(c);
                 /* Read post dot digits. */
-                int64_t post_dot = 0;
-                auto n = scale;
                 while (n > 0 and is_dec(c)) {
-                    post_dot = 10 * post_dot + c - '0';
+                    is_overflow = is_overflow or not append_digit(d, is_neg);
                     step();
                     n--;
                 }
-                post_dot *= powi(10, n);
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
-                d += d >= 0 ? post_dot : -post_dot;
             }
             if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
@@ -336,7 +347,13 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (not is_end_of_cell()) step();
                 return;
             }
-            if (is_neg) d = -d;
+            for (; n > 0; --n) // scale up
+                is_overflow = is_overflow or __builtin_mul_overflow(d, int64_t(10), &d);
+            if (not is_valid or is_overflow or not is_in_range(d)) {
+                diag.e(pos) << "WARNING: Invalid decimal or decimal out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
             tup.set(col_idx, d);
             break;
         }
@@ -376,12 +393,19 @@ void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
 
-int64_t DSVReader::read_unsigned_int()
+bool DSVReader::append_digit(int64_t &i, bool is_neg) const
+{
+    const int64_t digit = c - '0';
+    return not __builtin_mul_overflow(i, int64_t(10), &i) and
+           not __builtin_add_overflow(i, is_neg ? -digit : digit, &i);
+}
+
+bool DSVReader::read_digits(int64_t &i, bool is_neg)
 {
-    int64_t i = 0;
+    bool fits = true;
     while (is_dec(c)) {
-        i = 10 * i + c - '0';
+        fits = fits and append_digit(i, is_neg);
         step();
     }
-    return i;
+    return fits;
 }
-- 
2.43.0


From 4958f5bdab022456dbb53f150f7662fe64b3165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 041/116] fix: reject attributes of an integral or decimal type
 that cannot be represented

---
 src/parse/Sema.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index cd26eb2..60d7fcf 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1526,6 +1526,14 @@ void Sema::operator()(CreateTableStmt &s)
                                    << ".\n";
             return;
         }
+        if (auto n = cast<const Numeric>(ty)) {
+            const auto size = n->size();
+            if (not n->is_float() and not n->is_double() and size != 8 and size != 16 and size != 32 and size != 64) {
+                diag.e(attr->name.pos) << "Attribute " << attr->name.text << " cannot be defined with type "
+                                       << *attr->type << ", the type cannot be represented.\n";
+                return;
+            }
+        }
         attr->type = ty->as_vectorial(); // convert potentially scalar type to vectorial
 
         /* Before we check the constraints, we must add this newly declared attribute to its table, and hence to the
-- 
2.43.0


From 8ac1e4d98b9ac91f268a67399e509bdb2b30ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 042/116] fix: a decimal of a single digit takes a byte

---
 include/mutable/catalog/Type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..dcf61ba 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -434,7 +434,8 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: // at least one byte
+                return std::max(8U, ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision))));
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From a885208a3c46a49cab5080b392b1186fb36328d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 043/116] fix: creating an already existing table must not
 dereference a null pointer

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 8116bca..4e3b022 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -269,6 +269,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
-- 
2.43.0


From 968faa6aae93b2cb4fcfe52cdff6eb4ddee03e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 044/116] fix: a day or time of a DSV file that does not exist
 is invalid

---
 src/io/DSVReader.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index e4e2887..ee85a11 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -4,6 +4,7 @@
 #include "backend/StackMachine.hpp"
 #include <cctype>
 #include <cerrno>
+#include <cstdio>
 #include <exception>
 #include <iterator>
 #include <limits>
@@ -20,6 +21,27 @@ using namespace m;
 using namespace m::storage;
 
 
+namespace {
+
+/** Returns `true` iff \p str denotes an existing day, formatted as `[-]YYYY-MM-DD`, and -- if \p has_time -- a time of
+ * day thereof, formatted as ` hh:mm:ss`.  Abides by the same rules as the semantic analysis of constants. */
+bool is_valid_date(const char *str, bool has_time)
+{
+    int year = 0;
+    unsigned month = 0, day = 0, hour = 0, minute = 0, second = 0;
+    if (std::sscanf(str, "%d-%u-%u %u:%u:%u", &year, &month, &day, &hour, &minute, &second) != (has_time ? 6 : 3))
+        return false;
+
+    /* Only datetimes are restricted to the days of leap years; see `Sema::operator()(Constant&)`. */
+    const bool is_leap_year = not has_time or (year % 4 == 0 and (year % 100 != 0 or year % 400 == 0));
+    const unsigned days_in_month[] = { 31, is_leap_year ? 29U : 28U, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
+    return year != 0 and month >= 1 and month <= 12 and day >= 1 and day <= days_in_month[month - 1] and
+           hour <= 23 and minute <= 59 and second <= 59;
+}
+
+}
+
+
 DSVReader::DSVReader(const Table &table, Config cfg, Diagnostic &diag, Scheduler::Transaction *transaction)
     : Reader(table, diag, transaction)
     , cfg_(cfg)
@@ -238,7 +260,10 @@ void DSVReader::operator()(Const<Date>&)
     if (has_quote and not accept(config().quote))
         goto invalid;
 
-    buf.push_back('\'');
+    buf.push_back(0);
+    if (not is_valid_date(&buf[2], false))
+        goto invalid;
+    buf.back() = '\'';
     buf.push_back(0);
 
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE))));
@@ -274,7 +299,10 @@ void DSVReader::operator()(Const<DateTime>&)
     if (has_quote and not accept(config().quote))
         goto invalid;
 
-    buf.push_back('\'');
+    buf.push_back(0);
+    if (not is_valid_date(&buf[2], true))
+        goto invalid;
+    buf.back() = '\'';
     buf.push_back(0);
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE_TIME))));
     return;
-- 
2.43.0


From 85a94e5fed867c3ee7988cfee9932fdefc1e5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 045/116] fix: a row of a DSV file must not leave a NOT NULL
 attribute NULL

---
 src/io/DSVReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index ee85a11..a97d38d 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -148,6 +148,13 @@ void DSVReader::operator()(std::istream &in, const char *name)
             discard_row();
             --idx;
             store.drop(); // drop the malformed row
+        } else if (auto attr = std::find_if(table.begin(), table.end(), [this](const Attribute &attr) {
+                       return attr.not_nullable and tup.is_null(attr.id);
+                   }); attr != table.end())
+        {
+            diag.e(pos) << "Attribute " << attr->name << " must not be NULL.\n";
+            --idx;
+            store.drop(); // drop the row that violates the constraint
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 9565f3f4b4e19a9947448efad18a0384db2cba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 046/116] fix: numbers that exceed the range of FLOAT are
 clamped as those that exceed the range of DOUBLE

---
 src/io/DSVReader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index a97d38d..82f5d65 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -414,8 +414,15 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
                 d = std::numeric_limits<double>::lowest();
             }
-            if (ty.is_float())
+            if (ty.is_float()) {
+                /* Clamp to the range of the type. */
+                constexpr double max = std::numeric_limits<float>::max();
+                if (d > max or d < -max) {
+                    diag.w(pos) << "WARNING: A floating-point number exceeds the range of the type.\n";
+                    d = d > 0 ? max : -max;
+                }
                 tup.set(col_idx, float(d));
+            }
             else
                 tup.set(col_idx, d);
             break;
-- 
2.43.0


From a28fdcff076a57cec26c659fd0a1cd4d01d70504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 047/116] fix: the limit of IMPORT may exceed the range of int
 and may be octal

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 60d7fcf..bbb4828 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1957,7 +1957,7 @@ void Sema::operator()(DSVImportStmt &s)
     cfg.has_header = s.has_header;
     cfg.skip_header = s.skip_header;
     if (s.rows)
-        cfg.num_rows = atoi(*s.rows.text);
+        cfg.num_rows = strtoull(*s.rows.text, nullptr, 0); // decimal or octal
 
     /* If character was provided by user, check that length is equal to 1. */
 #define SET_CHAR(NAME) \
-- 
2.43.0


From 38c6a6b86c02617a8b5367aa7e7432c06439be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 048/116] fix: NULL has no type, operations on it must not fail
 the type check of the sanity fields

---
 include/mutable/IR/Tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/IR/Tuple.hpp b/include/mutable/IR/Tuple.hpp
index 26ea561..3503bd1 100644
--- a/include/mutable/IR/Tuple.hpp
+++ b/include/mutable/IR/Tuple.hpp
@@ -78,7 +78,7 @@ struct M_EXPORT Value
     template<typename T>
     std::conditional_t<std::is_pointer_v<T>, T, T&> as() {
 #ifdef M_ENABLE_SANITY_FIELDS
-#define VALIDATE_TYPE(TY) M_insist(this->type == V##TY)
+#define VALIDATE_TYPE(TY) M_insist(this->type == V##TY or this->type == VNone) // the value of NULL has no type
 #else
 #define VALIDATE_TYPE(TY)
 #endif
-- 
2.43.0


From 110fafda20fcfb0d4e5a7f6dfc7834839b8094da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 049/116] fix: a NULL result of LIKE must be a Boolean and not
 the operand's pointer

---
 src/backend/StackMachine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index be090a3..00c4f52 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1521,6 +1521,8 @@ Like_const: {
     if (not TOP_IS_NULL) {
         char *str = TOP.as<char*>();
         TOP = std::regex_match(str, *re);
+    } else {
+        TOP = false; // the result is a Boolean, even if it is NULL
     }
 }
 NEXT;
@@ -1529,6 +1531,7 @@ Like_expr: {
     M_insist(top_ >= 2);
     if (TOP_IS_NULL) {
         POP();
+        TOP = false; // the result is a Boolean, even if it is NULL
         TOP_IS_NULL = true;
     } else {
         char *pattern = TOP.as<char*>();
@@ -1536,6 +1539,8 @@ Like_expr: {
         if (not TOP_IS_NULL) {
             char *str = TOP.as<char*>();
             TOP = like(str, pattern);
+        } else {
+            TOP = false; // the result is a Boolean, even if it is NULL
         }
     }
 }
-- 
2.43.0


From ceeccdb28146994db56b1699add9edd7c63b4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 050/116] fix: connected subgraphs must be enumerated after
 their subsets, DPccp planned with incomplete subplans

---
 include/mutable/util/AdjacencyMatrix.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mutable/util/AdjacencyMatrix.hpp b/include/mutable/util/AdjacencyMatrix.hpp
index 60255e0..417e5d1 100644
--- a/include/mutable/util/AdjacencyMatrix.hpp
+++ b/include/mutable/util/AdjacencyMatrix.hpp
@@ -154,7 +154,7 @@ exit:
     AdjacencyMatrix transitive_closure_undirected() const;
 
     /** Enumerate all *connected subgraphs* (CSGs) of the graph induced by vertex super set `super`, starting only from
-     * nodes in `source`. */
+     * nodes in `source`.  Every CSG is enumerated after all its subsets. */
     void for_each_CSG_undirected(SmallBitset super, SmallBitset source, std::function<void(SmallBitset)> callback) const
     {
         source = source & super; // restrict sources to vertices in `super`
@@ -165,16 +165,17 @@ exit:
             M_insist(I.is_singleton());
             Q.emplace_back(I, source & ~I.mask_to_lo()); // exclude larger sources
 
+            /* Process the CSGs depth-first.  A breadth-first traversal may enumerate a CSG before one of its subsets. */
             while (not Q.empty()) {
-                auto [S, X_old] = Q.front();
-                Q.pop_front();
+                auto [S, X_old] = Q.back();
+                Q.pop_back();
 
                 callback(S);
 
                 const SmallBitset N = (neighbors(S) & super) - X_old;
                 const SmallBitset X_new = X_old | N;
-                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
-                    Q.emplace_back(S | n, X_new);
+                for (SmallBitset n = N; bool(n); n = SmallBitset(uint64_t(n) - 1UL) & N) // enumerate 2^{neighbors of S}
+                    Q.emplace_back(S | n, X_new); // in descending order, such that smaller sets are processed first
             }
         }
     }
-- 
2.43.0


From efd71d43be6445359e7e76323cc6204daa437d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 051/116] fix: negated predicates and conjunctions of clauses
 must print as valid SQL

---
 src/IR/CNF.cpp       | 12 ++++++++----
 src/query_slicer.cpp |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 8ce3c18..83d7bd0 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -112,13 +112,15 @@ void cnf::Clause::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " OR ";
-                out << '(' << *it << ')';
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
@@ -132,13 +134,15 @@ void CNF::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " AND ";
-                out << *it;
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
diff --git a/src/query_slicer.cpp b/src/query_slicer.cpp
index 50315c0..76686c0 100644
--- a/src/query_slicer.cpp
+++ b/src/query_slicer.cpp
@@ -155,7 +155,9 @@ void emit_query_slice(std::ostream &out, const m::QueryGraph &G, m::Subproblem s
         } else {
             out << " AND ";
         }
+        out << '(';
         J->condition().to_sql(out);
+        out << ')';
 skip_join:;
     }
 
@@ -171,7 +173,9 @@ skip_join:;
                 } else {
                     out << " AND ";
                 }
+                out << '(';
                 selection.to_sql(out);
+                out << ')';
             }
         }
     }
-- 
2.43.0


From b3443486b3659b8c1ef7ff397dc8ba50030978d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 052/116] fix: converting a negated equality of conditions to
 CNF must not grow exponentially

---
 src/IR/CNF.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 83d7bd0..618d981 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -279,12 +279,25 @@ void CNFGenerator::operator()(Const<BinaryExpr> &e)
         } else if ((not is_negative_ and e.op() == TK_Or) or (is_negative_ and e.op() == TK_And)) {
             result_ = cnf_lhs or cnf_rhs;
         } else if (e.op() == TK_EQUAL or e.op() == TK_BANG_EQUAL) {
-            /* A ↔ B ⇔ (A → B) ^ (B → A) ⇔ (¬A v B) ^ (¬B v A) */
-            auto equiv = ((not cnf_lhs) or cnf_rhs) and ((not cnf_rhs) or cnf_lhs);
+            /* Negate the operands by converting them with inverted sign, rather than by negating a CNF: the latter grows
+             * exponentially. */
+            is_negative_ = not is_negative_;
+            (*this)(*e.lhs);
+            auto neg_lhs = result_;
+            (*this)(*e.rhs);
+            auto neg_rhs = result_;
+            is_negative_ = not is_negative_;
+
+            if (is_negative_) {
+                using std::swap;
+                swap(cnf_lhs, neg_lhs);
+                swap(cnf_rhs, neg_rhs);
+            }
+
             if ((not is_negative_ and e.op() == TK_BANG_EQUAL) or (is_negative_ and e.op() == TK_EQUAL))
-                result_ = not equiv; // A ↮ B ⇔ ¬(A ↔ B)
+                result_ = (cnf_lhs or cnf_rhs) and (neg_lhs or neg_rhs); // A ↮ B ⇔ (A v B) ^ (¬A v ¬B)
             else
-                result_ = equiv;
+                result_ = (neg_lhs or cnf_rhs) and (neg_rhs or cnf_lhs); // A ↔ B ⇔ (¬A v B) ^ (¬B v A)
         } else {
             M_unreachable("unsupported boolean expression");
         }
-- 
2.43.0


From f3d486ac21011c5d0532a3c311826f296c576d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 053/116] fix: estimate a join of all sources as the product,
 counting the first source once

---
 src/catalog/CardinalityEstimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 190b395..032a0ce 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -362,7 +362,7 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
             std::cerr << "warning: failed to estimate the join of all data sources in " << to_join << '\n';
         auto ds_it = to_join.begin();
         std::size_t size = as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
-        for (; ds_it != to_join.end(); ++ds_it)
+        for (++ds_it; ds_it != to_join.end(); ++ds_it)
             size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
-- 
2.43.0


From df45fd688e314082cccaa8fcd98df4ddb5acca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 054/116] fix: malformed or repeated entries of injected
 cardinalities are ignored with a warning

---
 src/catalog/CardinalityEstimator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 032a0ce..2708889 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -203,8 +203,8 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
     }
     json *database_entry;
     try {
-        database_entry = &cardinalities.at(*name_of_database); //throws if key does not exist
-    } catch (json::out_of_range &out_of_range) {
+        database_entry = &cardinalities.at(*name_of_database); //throws if not an object or key does not exist
+    } catch (json::exception &exception) {
         diag.w(pos) << "No entry for the db " << name_of_database << " in the file.\n"
                     << "A dummy estimator will be used to do estimations.\n";
         return;
@@ -218,6 +218,15 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
             relations_array = &subproblem_entry.at("relations");
             size = &subproblem_entry.at("size");
         } catch (json::exception &exception) {
+            relations_array = size = nullptr;
+        }
+
+        const bool is_well_formed =
+            relations_array and relations_array->is_array() and
+            std::all_of(relations_array->begin(), relations_array->end(), [](auto &name) { return name.is_string(); }) and
+            (size->is_number_unsigned() or
+             (size->is_number_float() and size->get<double>() >= 0. and size->get<double>() < 0x1p64));
+        if (not is_well_formed) {
             diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
                         << " does not have the required form of {\"relations\": ..., \"size\": ... } "
                         << "and will thus be ignored.\n";
@@ -238,7 +247,9 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
         buf_.emplace_back(0);
         ThreadSafePooledString str = C.pool(buf_view());
         auto res = cardinality_table_.emplace(std::move(str), *size);
-        M_insist(res.second, "insertion must not fail as we do not allow for duplicates in the input file");
+        if (not res.second)
+            diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
+                        << " is a duplicate and will thus be ignored.\n";
     }
 }
 
-- 
2.43.0


From 386968f807e1ce8c30a020002a9a4e900af1dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 055/116] fix: enumerating the subsets of size 0 must terminate

---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..dfb447c 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) [[unlikely]] { // the empty set is the only subset of size 0
+            set_ = SmallBitset(limit_);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From fdf2468fa91f49b1cc7ae641ace0c510b66236ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 056/116] fix: lists and arrays must destroy every element,
 sorted vectors must compare with their comparator

---
 include/mutable/util/ADT.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index dfb447c..a0faa9a 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -303,7 +303,7 @@ struct dyn_array
     {
         auto ptr = data();
         for (auto it = begin; it != end; ++it)
-            new (ptr++) value_type(*it);
+            *ptr++ = value_type(*it); // elements are already constructed
     }
 
     /** Copy-constructs an array. */
@@ -311,7 +311,7 @@ struct dyn_array
         : dyn_array(other.size())
     {
         for (std::size_t i = 0; i != other.size(); ++i)
-            new (&data()[i]) value_type(other[i]);
+            data()[i] = value_type(other[i]); // elements are already constructed
     }
 
     dyn_array(dyn_array&&) = default;
@@ -601,6 +601,7 @@ struct doubly_linked_list
             next->ptrxor_ ^= reinterpret_cast<std::uintptr_t>(pos.node_) ^ reinterpret_cast<std::uintptr_t>(prev);
         else // erased last node
             tail_ = prev;
+        pos.node_->value_.~value_type();
         deallocate_node(pos.node_);
         --size_;
         return iterator(next, pos.prev_);
@@ -814,7 +815,7 @@ struct sorted_vector
     }
 
     /** Inserts `value` into this `sorted_vector`.  Returns an `iterator` pointing to the inserted element. */
-    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value), value, comp_); }
+    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value, comp_), value); }
 
     /** Inserts elements in the range from `first` (including) to `last` (excluding) into this `sorted_vector. */
     template<typename InsertIt>
-- 
2.43.0


From dd78a97c4e4e86f57cc55e933fb6b9a288ae4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 057/116] fix: iteration over a hash map must skip leading free
 entries, every element must be destroyed exactly once

---
 src/util/container/RefCountingHashMap.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..661c5ca 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -125,7 +125,7 @@ struct RefCountingHashMap
             return *this;
         }
 
-        the_bucket_iterator & operator++(int) {
+        the_bucket_iterator operator++(int) {
             the_bucket_iterator tmp = *this;
             operator++();
             return tmp;
@@ -203,9 +203,9 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() { return iterator(*this, first_occupied()); }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const { return const_iterator(*this, first_occupied()); }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
@@ -353,6 +353,7 @@ struct RefCountingHashMap
             if (runner->probe_length) {
                 auto &key_ref = const_cast<key_type&>(runner->value.first); // hack around the `const key_type`
                 insert_with_duplicates(std::move(key_ref), std::move(runner->value.second));
+                runner->~entry_type();
             }
         }
 
@@ -402,9 +403,17 @@ M_LCOV_EXCL_STOP
         return p;
     }
 
+    /** Marks all entries as free.  The value of an entry is constructed when the entry becomes occupied. */
     void initialize() {
         for (auto runner = table_, end = table_ + capacity_; runner != end; ++runner)
-            new (runner) entry_type();
+            new (&runner->probe_length) uint32_t(0);
+    }
+
+    /** Returns the first occupied entry or, if there is none, the end of the table. */
+    entry_type * first_occupied() const {
+        auto runner = table_;
+        for (auto end = table_ + capacity_; runner != end and runner->probe_length == 0; ++runner);
+        return runner;
     }
 };
 
-- 
2.43.0


From fe3f88c4f93c8d6442a60b21c56b8e6fb7b5402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 058/116] fix: a sharable pointer must delete its object by the
 type it was created with

---
 include/mutable/util/unsharable_shared_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/unsharable_shared_ptr.hpp b/include/mutable/util/unsharable_shared_ptr.hpp
index 4ba3598..32007cc 100644
--- a/include/mutable/util/unsharable_shared_ptr.hpp
+++ b/include/mutable/util/unsharable_shared_ptr.hpp
@@ -34,12 +34,13 @@ struct unsharable_shared_ptr : public std::shared_ptr<T>
     ///> parameter type to enable accessing the custom deleter even if the `this` was constructed/assigned from another
     ///> `unsharable_shared_ptr` of a *compatible* type, e.g. qualified without `const` or a derived class
     using deleter_func_type = void(*)(const void*);
-    static void default_deleter(const void *ptr) { delete (T*) ptr; }
+    template<typename Y>
+    static void default_deleter(const void *ptr) { delete (Y*) ptr; } // `ptr` was a pointer to `Y`
     static void noop_deleter(const void*) { }
 
     public:
     template<typename Y>
-    explicit unsharable_shared_ptr(Y *ptr) : super(ptr, &unsharable_shared_ptr::default_deleter) { }
+    explicit unsharable_shared_ptr(Y *ptr) : super(ptr, deleter_func_type(&unsharable_shared_ptr::default_deleter<Y>)) { }
 
     unsharable_shared_ptr() : super(nullptr) { }
     explicit unsharable_shared_ptr(std::nullptr_t) : super(nullptr) { }
-- 
2.43.0


From b166d5ca59b578ba167af10318a3cca6daff3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 059/116] fix: enumerate the connected subgraphs of one source
 in ascending order

---
 include/mutable/util/AdjacencyMatrix.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/mutable/util/AdjacencyMatrix.hpp b/include/mutable/util/AdjacencyMatrix.hpp
index 417e5d1..39d0b8f 100644
--- a/include/mutable/util/AdjacencyMatrix.hpp
+++ b/include/mutable/util/AdjacencyMatrix.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include <map>
 #include <mutable/util/ADT.hpp>
 
 
@@ -159,23 +160,24 @@ exit:
     {
         source = source & super; // restrict sources to vertices in `super`
 
-        std::deque<std::pair<SmallBitset, SmallBitset>> Q;
+        /* Process the CSGs of a source in ascending order.  This way, every CSG is processed after all its subsets. */
+        std::map<uint64_t, SmallBitset> Q; // CSGs to process and the nodes excluded from extending them
         for (auto it = source.begin(); it != source.end(); ++it) {
             const SmallBitset I = it.as_set();
             M_insist(I.is_singleton());
-            Q.emplace_back(I, source & ~I.mask_to_lo()); // exclude larger sources
+            Q.emplace(uint64_t(I), source & ~I.mask_to_lo()); // exclude larger sources
 
-            /* Process the CSGs depth-first.  A breadth-first traversal may enumerate a CSG before one of its subsets. */
             while (not Q.empty()) {
-                auto [S, X_old] = Q.back();
-                Q.pop_back();
+                const SmallBitset S(Q.begin()->first);
+                const SmallBitset X_old = Q.begin()->second;
+                Q.erase(Q.begin());
 
                 callback(S);
 
                 const SmallBitset N = (neighbors(S) & super) - X_old;
                 const SmallBitset X_new = X_old | N;
-                for (SmallBitset n = N; bool(n); n = SmallBitset(uint64_t(n) - 1UL) & N) // enumerate 2^{neighbors of S}
-                    Q.emplace_back(S | n, X_new); // in descending order, such that smaller sets are processed first
+                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
+                    Q.emplace(uint64_t(S | n), X_new);
             }
         }
     }
-- 
2.43.0


From eda872117baf161e989bbdd49978b1dc9cd05093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 060/116] fix: ceil_to_pow_2 and log2 of types narrower than
 unsigned

---
 include/mutable/util/fn.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..1c38c4d 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -151,7 +151,7 @@ ceil_to_pow_2(T n)
     }
     M_insist(lz > 0, "ceiled value would exceed data type");
 
-    T ceiled = T(1) << (8 * sizeof(T) - lz);
+    T ceiled = T(1) << (8 * std::max(sizeof(T), sizeof(unsigned)) - lz); // narrow types are promoted when counting
     M_insist(n <= ceiled, "the ceiled value must be greater or equal to the original value");
     M_insist((n << 1) == 0 or ceiled < (n << 1), "the ceiled value must be smaller than twice the original value");
     M_insist(is_pow_2(ceiled));
@@ -196,7 +196,7 @@ M_EXPORT
 log2_floor(T n)
 {
     if constexpr (sizeof(T) <= sizeof(unsigned)) {
-        return sizeof(T) * 8 - __builtin_clz(n) - 1;
+        return sizeof(unsigned) * 8 - __builtin_clz(n) - 1; // narrow types are promoted when counting
     } else if constexpr (sizeof(T) <= sizeof(unsigned long)) {
         return sizeof(T) * 8 - __builtin_clzl(n) - 1;
     } else if constexpr (sizeof(T) <= sizeof(unsigned long long)) {
@@ -211,7 +211,7 @@ typename std::enable_if_t<std::is_integral_v<T> and std::is_unsigned_v<T> and si
 M_EXPORT
 log2_ceil(T n)
 {
-    return n <= 1 ? 0 : log2_floor(n - T(1)) + T(1);
+    return n <= 1 ? 0 : log2_floor(T(n - T(1))) + T(1);
 }
 
 /** Short version of dynamic_cast that works for pointers and references. */
-- 
2.43.0


From 6d023b36da830fcb907a8135678d83bef0910f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 061/116] fix: LIKE must not place its table on the stack

---
 src/util/fn.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/fn.cpp b/src/util/fn.cpp
index c4b0620..fa9ace1 100644
--- a/src/util/fn.cpp
+++ b/src/util/fn.cpp
@@ -1,5 +1,7 @@
 #include <mutable/util/fn.hpp>
 
+#include <vector>
+
 #if __linux
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -71,7 +73,8 @@ bool m::like(const std::string &str, const std::string &pattern, const char esca
 {
     M_insist('_' != escape_char and '%' != escape_char, "illegal escape character");
 
-    bool dp[pattern.length() + 1][str.length() + 1]; // dp[i][j] == true iff pattern[:i] contains str[:j]
+    /* dp[i][j] == true iff pattern[:i] contains str[:j]; allocated on the heap because of its size */
+    std::vector<std::vector<char>> dp(pattern.length() + 1, std::vector<char>(str.length() + 1));
 
     dp[0][0] = true; // empty pattern contains empty string
     for (std::size_t j = 1; j <= str.length(); ++j)
-- 
2.43.0


From 6aea3f0356a5772f6a3edf6762ea139c27195a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 062/116] fix: wildcards of constant LIKE patterns must match
 newlines, long texts must not overflow the stack

---
 include/mutable/util/fn.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index 1c38c4d..a9e8e4b 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -349,10 +349,10 @@ inline std::regex pattern_to_regex(const char *pattern, const bool optimize = fa
                 ss << *c;
                 break;
             case '%':
-                ss << "(.*)";
+                ss << "([^]*)"; // any characters, including newlines
                 break;
             case '_':
-                ss << '.';
+                ss << "[^]"; // any character, including newlines
                 break;
             case '[':
             case ']':
@@ -372,7 +372,13 @@ inline std::regex pattern_to_regex(const char *pattern, const bool optimize = fa
                 break;
         }
     }
-    return optimize ? std::regex(ss.str(), std::regex::optimize) : std::regex(ss.str());
+    auto flags = std::regex::ECMAScript;
+#ifdef __GLIBCXX__
+    /* The default executor of libstdc++ recurses for every character and hence overflows the stack on long strings. */
+    flags |= std::regex_constants::__polynomial;
+#endif
+    if (optimize) flags |= std::regex::optimize;
+    return std::regex(ss.str(), flags);
 }
 
 /** Compares a SQL-style LIKE pattern with the given `std::string`. */
-- 
2.43.0


From fcaf907eb814a1351bcf5f5a70966abb77c336e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 063/116] fix: the list allocator must refuse sizes whose chunk
 size overflows

---
 include/mutable/util/list_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mutable/util/list_allocator.hpp b/include/mutable/util/list_allocator.hpp
index f59dc94..b064bab 100644
--- a/include/mutable/util/list_allocator.hpp
+++ b/include/mutable/util/list_allocator.hpp
@@ -184,6 +184,8 @@ struct list_allocator : allocator<list_allocator>
 
     void * allocate(const size_type size, const size_type alignment = 0) {
         if (size == 0) return nullptr;
+        if (size >= DEALLOCATION_BIT_MASK / CHUNK_SPLIT_FACTOR) [[unlikely]]
+            throw std::runtime_error(strerror(ENOMEM)); // the computation of chunk sizes would overflow
 
         M_insist(alignment == 0 or is_pow_2(alignment), "alignment must be 0 or a power of 2");
 
-- 
2.43.0


From c941b39f65313d59afc6fd3885113d63bac31eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 064/116] fix: the argument parser must reject trailing
 characters and negative values of unsigned options

---
 src/util/ArgParser.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/util/ArgParser.cpp b/src/util/ArgParser.cpp
index c7a059d..0535c35 100644
--- a/src/util/ArgParser.cpp
+++ b/src/util/ArgParser.cpp
@@ -32,24 +32,31 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
 
     T i;
     try {
+        std::size_t pos; // number of characters processed
+        if constexpr (std::unsigned_integral<T>) {
+            if (std::string_view(*argv).find('-') != std::string_view::npos)
+                throw std::invalid_argument("negative value for unsigned type");  //M_LCOV_EXCL_LINE
+        }
         /*----- Signed integer types. -----*/
         if constexpr (std::same_as<T, int>)
-            i = std::stoi(*argv);
+            i = std::stoi(*argv, &pos);
         if constexpr (std::same_as<T, long>)
-            i = std::stol(*argv);
+            i = std::stol(*argv, &pos);
         if constexpr (std::same_as<T, long long>)
-            i = std::stoll(*argv);
+            i = std::stoll(*argv, &pos);
         /*----- Unsigned integer types. -----*/
         if constexpr (std::same_as<T, unsigned>) {
-            const unsigned long v = std::stoul(*argv);
+            const unsigned long v = std::stoul(*argv, &pos);
             if (v > std::numeric_limits<unsigned>::max())
                 throw std::out_of_range("input exceeds range of type unsigned int");  //M_LCOV_EXCL_LINE
             i = unsigned(v);
         }
         if constexpr (std::same_as<T, unsigned long>)
-            i = std::stoul(*argv);
+            i = std::stoul(*argv, &pos);
         if constexpr (std::same_as<T, unsigned long long>)
-            i = std::stoull(*argv);
+            i = std::stoull(*argv, &pos);
+        if ((*argv)[pos] != '\0')
+            throw std::invalid_argument("trailing characters");  //M_LCOV_EXCL_LINE
     }
 
     M_LCOV_EXCL_START
@@ -74,12 +81,15 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
 
     T fp;
     try {
+        std::size_t pos; // number of characters processed
         if constexpr (std::same_as<T, float>)
-            fp = std::stof(*argv);
+            fp = std::stof(*argv, &pos);
         if constexpr (std::same_as<T, double>)
-            fp = std::stod(*argv);
+            fp = std::stod(*argv, &pos);
         if constexpr (std::same_as<T, long double>)
-            fp = std::stold(*argv);
+            fp = std::stold(*argv, &pos);
+        if ((*argv)[pos] != '\0')
+            throw std::invalid_argument("trailing characters");  //M_LCOV_EXCL_LINE
     }
 
     M_LCOV_EXCL_START
-- 
2.43.0


From 3dd704db9a2469723db8c1e320b7fc954cf64f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 065/116] fix: an address space of size zero must not unmap an
 arbitrary range

---
 include/mutable/util/memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/memory.hpp b/include/mutable/util/memory.hpp
index 974e96f..3934bee 100644
--- a/include/mutable/util/memory.hpp
+++ b/include/mutable/util/memory.hpp
@@ -50,11 +50,11 @@ struct M_EXPORT AddressSpace
     }
 
     private:
-    void *addr_; ///< pointer to the beginning of the virtual address space
-    std::size_t size_; ///< size in bytes of the address space
+    void *addr_ = nullptr; ///< pointer to the beginning of the virtual address space
+    std::size_t size_ = 0; ///< size in bytes of the address space
 
     private:
-    AddressSpace() : addr_(nullptr), size_(0) { }
+    AddressSpace() { }
     public:
     AddressSpace(std::size_t size);
     ~AddressSpace();
-- 
2.43.0


From eeabf5ad986e2d1ff11a8b062ac5ca3028735605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 066/116] fix: the lexer must not put the end of the input back
 into the stream

---
 src/lex/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f6beaa4..4dc10b8 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -3,7 +3,7 @@
 #include <cctype>
 
 
-#define UNDO(CHR) { in.putback(c_); c_ = CHR; pos_.column--; }
+#define UNDO(CHR) { if (c_ != EOF) in.putback(c_); c_ = CHR; pos_.column--; }
 
 
 using namespace m;
-- 
2.43.0


From 5f17a739c91fa7c4f57b895266d32f66351771a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 067/116] fix: a hexadecimal floating-point number needs digits
 in its significand

---
 src/lex/Lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index 4dc10b8..66a9fdc 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -167,8 +167,8 @@ Token Lexer::read_number()
         if (is  == Oct) is  = Dec; // there are no octal floating point constants
         if (has == Oct) has = Dec;
         if ('-' == c_ || '+' == c_) push();
-        empty = true;
-        while (is_dec(c_)) { empty = false; push(); }
+        empty |= not is_dec(c_); // neither significand nor exponent may be empty
+        while (is_dec(c_)) push();
     }
 
     if (empty or is != has) {
-- 
2.43.0


From c46c69406dbae8e1d6a15592660f54cdd766eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 068/116] fix: string literals and instructions with NUL
 characters must be diagnosed, not truncated

---
 src/lex/Lexer.cpp | 14 +++++++++++++-
 src/lex/Lexer.hpp |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index 66a9fdc..6052a05 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -216,8 +216,14 @@ Token Lexer::read_string_literal()
     }
 
     push(); // terminal '"'
+    const bool contains_nul = has_nul();
     const auto str = internalize();
 
+    if (contains_nul) {
+        diag.e(start_) << "NUL character in string literal '" << str << "'\n";
+        return Token(start_, std::move(str), TK_ERROR);
+    }
+
     if (invalid) {
         diag.e(start_) << "invalid escape sequence in string literal '" << str << "'\n";
         return Token(start_, std::move(str), TK_ERROR);
@@ -272,5 +278,11 @@ Token Lexer::read_instruction()
     push(); // initial '\'
     while (';' != c_ and EOF != c_)
         push();
-    return Token(start_, internalize(), TK_INSTRUCTION);
+    const bool contains_nul = has_nul();
+    auto str = internalize();
+    if (contains_nul) {
+        diag.e(start_) << "NUL character in instruction '" << str << "'\n";
+        return Token(start_, std::move(str), TK_ERROR);
+    }
+    return Token(start_, std::move(str), TK_INSTRUCTION);
 }
diff --git a/src/lex/Lexer.hpp b/src/lex/Lexer.hpp
index 46bedae..cbe2aa6 100644
--- a/src/lex/Lexer.hpp
+++ b/src/lex/Lexer.hpp
@@ -4,6 +4,7 @@
 #include <mutable/lex/TokenType.hpp>
 #include <mutable/util/Diagnostic.hpp>
 #include <mutable/util/Pool.hpp>
+#include <algorithm>
 #include <istream>
 #include <unordered_map>
 #include <vector>
@@ -78,6 +79,9 @@ struct M_EXPORT Lexer
         return false;
     }
 
+    /** Returns `true` iff the current token contains a NUL character, which a pooled (NUL-terminated) string cannot hold. */
+    bool has_nul() const { return std::find(buf_.begin(), buf_.end(), '\0') != buf_.end(); }
+
     ThreadSafePooledString internalize() {
         buf_.push_back('\0');
         return pool(buf_.data());
-- 
2.43.0


From 0596acca7eefb74f730ff52cccdb29c5809e71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 069/116] fix: the unary operators ~ and NOT must not be parsed
 as binary operators

---
 src/parse/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..372ba83 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1044,7 +1044,8 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
 
     for (;;) {
         Token op = token();
-        int p = get_precedence(op);
+        const bool is_binary = op != TK_TILDE and op != TK_Not; // unary operators must not follow an operand
+        int p = is_binary ? get_precedence(op) : -1;
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
         consume();
 
-- 
2.43.0


From cc8bdcf1ff94ebc9d7d0949ed9272ba4f98881cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 070/116] fix: the scale of a DECIMAL may be zero, as it is
 printed

---
 src/parse/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 372ba83..fa754fe 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1163,7 +1163,8 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_DEC_INT)) goto error_recovery;
             if (accept(TK_COMMA)) {
                 scale = token();
-                if (not expect(TK_DEC_INT)) goto error_recovery;
+                const bool is_zero = scale.type == TK_OCT_INT and streq(*scale.text, "0"); // 0 is an octal constant
+                if (not expect(is_zero ? TK_OCT_INT : TK_DEC_INT)) goto error_recovery;
             }
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
-- 
2.43.0


From e73b94516ce935a852cf4b7360de32583769d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 071/116] fix: printed statements must contain the nested
 queries of all their expressions

---
 src/parse/ASTPrinter.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 1cd79e9..4508189 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -57,9 +57,12 @@ void ASTPrinter::operator()(Const<BinaryExpr> &e)
 void ASTPrinter::operator()(Const<QueryExpr> &e)
 {
     if (expand_nested_queries_) {
+        const bool was_nested = is_nested_;
+        is_nested_ = true; // no final ';'
         out << '(';
         (*this)(*e.query);
         out << ')';
+        is_nested_ = was_nested;
     } else {
         out << e.alias() << '.' << e.alias(); // name of artificial source followed by name of single result
     }
@@ -103,7 +106,8 @@ void ASTPrinter::operator()(Const<FromClause> &c)
 
 void ASTPrinter::operator()(Const<WhereClause> &c)
 {
-    out << "WHERE " << *c.where;
+    out << "WHERE ";
+    (*this)(*c.where);
 }
 
 void ASTPrinter::operator()(Const<GroupByClause> &c)
@@ -120,7 +124,8 @@ void ASTPrinter::operator()(Const<GroupByClause> &c)
 
 void ASTPrinter::operator()(Const<HavingClause> &c)
 {
-    out << "HAVING " << *c.having;
+    out << "HAVING ";
+    (*this)(*c.having);
 }
 
 void ASTPrinter::operator()(Const<OrderByClause> &c)
@@ -160,7 +165,9 @@ void ASTPrinter::operator()(Const<NotNullConstraint>&)
 
 void ASTPrinter::operator()(Const<CheckConditionConstraint> &c)
 {
-    out << "CHECK (" << *c.cond << ')';
+    out << "CHECK (";
+    (*this)(*c.cond);
+    out << ')';
 }
 
 void ASTPrinter::operator()(Const<ReferenceConstraint> &c)
@@ -320,7 +327,7 @@ void ASTPrinter::operator()(Const<InsertStmt> &s)
             switch (elem_it->first) {
                 case InsertStmt::I_Default: out << "DEFAULT";   break;
                 case InsertStmt::I_Null:    out << "NULL";      break;
-                case InsertStmt::I_Expr:    out << *elem_it->second;     break;
+                case InsertStmt::I_Expr:    (*this)(*elem_it->second); break;
             }
         }
         out << ')';
@@ -333,16 +340,23 @@ void ASTPrinter::operator()(Const<UpdateStmt> &s)
     out << "UPDATE " << s.table_name.text << "\nSET\n";
     for (auto it = s.set.cbegin(), end = s.set.cend(); it != end; ++it) {
         if (it != s.set.cbegin()) out << ",\n";
-        out << "    " << it->first.text << " = " << *it->second;
+        out << "    " << it->first.text << " = ";
+        (*this)(*it->second);
+    }
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
     }
-    if (s.where) out << '\n' << *s.where;
     out << ';';
 }
 
 void ASTPrinter::operator()(Const<DeleteStmt> &s)
 {
     out << "DELETE FROM " << s.table_name.text;
-    if (s.where) out << '\n' << *s.where;
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
+    }
     out << ';';
 }
 
-- 
2.43.0


From 70297beab4c1bfb2c817265390a903bd4879ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 072/116] fix: printed import statements must contain the
 escape and quote options

---
 src/parse/ASTPrinter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 4508189..d51aa7f 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -367,6 +367,10 @@ void ASTPrinter::operator()(Const<DSVImportStmt> &s)
         out << " ROWS " << s.rows.text;
     if (s.delimiter)
         out << " DELIMITER " << s.delimiter.text;
+    if (s.escape)
+        out << " ESCAPE " << s.escape.text;
+    if (s.quote)
+        out << " QUOTE " << s.quote.text;
     if (s.has_header)
         out << " HAS HEADER";
     if (s.skip_header)
-- 
2.43.0


From f4f86e2ec41a34ba96644b974c680251accb2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 073/116] fix: key expressions of printed create index
 statements must be parenthesized

---
 src/parse/ASTPrinter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index d51aa7f..3030392 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -260,7 +260,15 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         auto &field = *it;
         if (it != s.key_fields.cbegin()) out << ',';
         out << "\n    ";
-        (*this)(*field);
+        /* Key fields are either identifiers or parenthesized expressions. */
+        auto d = cast<const Designator>(field.get());
+        if ((d and not d->has_explicit_table_name()) or is<const UnaryExpr>(*field) or is<const BinaryExpr>(*field)) {
+            (*this)(*field); // already an identifier or parenthesized
+        } else {
+            out << '(';
+            (*this)(*field);
+            out << ')';
+        }
     }
     out << "\n);";
 }
-- 
2.43.0


From 3649226f6610e239dadd4648a5fa61088d2eb8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 074/116] fix: hexadecimal integer constants, not hexadecimal
 floats, are integers

---
 include/mutable/parse/AST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/parse/AST.hpp b/include/mutable/parse/AST.hpp
index 3c5adb7..ab4c300 100644
--- a/include/mutable/parse/AST.hpp
+++ b/include/mutable/parse/AST.hpp
@@ -228,7 +228,7 @@ struct M_EXPORT Constant : Expr
     bool is_null() const { return tok.type == TK_Null; }
     bool is_bool() const { return tok.type == TK_True or tok.type == TK_False; }
     bool is_number() const { return is_integer() or is_float(); }
-    bool is_integer() const { return tok.type == TK_OCT_INT or tok.type == TK_DEC_INT or tok.type == TK_HEX_FLOAT; }
+    bool is_integer() const { return tok.type == TK_OCT_INT or tok.type == TK_DEC_INT or tok.type == TK_HEX_INT; }
     bool is_float() const { return tok.type == TK_DEC_FLOAT or tok.type == TK_HEX_FLOAT; }
     bool is_string() const { return tok.type == TK_STRING_LITERAL; }
     bool is_date() const { return tok.type == TK_DATE; }
-- 
2.43.0


From 55c9fc566a5a3c0b1c24ec4c5cd830944bb160c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 075/116] fix: search the command queue from its back for
 commands of the same transaction

---
 src/catalog/SerialScheduler.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..368f2fe 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -46,17 +46,18 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
         return;
     }
 
-    /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
-     * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    /* Check if transaction `t` already has elements in the queue.  If yes, then emplace the command right after the last
+     * of them.  If not, then check if the transaction is the currently running transaction.  If yes, then emplace the
+     * command in the front, otherwise emplace at the end. */
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
-    if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
+    if (it != command_list_.rend())
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise));
+    else if (running_transaction_ and *running_transaction_ == t)
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
-        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From 75e109ee08e7a0b9b4326b351ed407f502354e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 076/116] fix: committing or aborting a transaction that never
 ran must not stop the running one

---
 src/catalog/SerialScheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 368f2fe..67c3034 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -83,7 +83,8 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
+    /* A transaction that never had a command executed is not running; there may be another one that is. */
+    if (&t != running_transaction_) return;
     running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From 799bc012e81e5b8214f00779d66a2abc434ca581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 077/116] fix: create the thread of the SerialScheduler only
 once

---
 src/catalog/SerialScheduler.cpp | 1 +
 src/catalog/SerialScheduler.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 67c3034..084ed39 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -107,6 +107,7 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
+    std::lock_guard<std::mutex> lock(schedule_thread_mutex_); // several clients may issue the very first command
     if (not schedule_thread_.joinable()) [[unlikely]]
         // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
         schedule_thread_ = std::thread(schedule_thread);
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..219ee4b 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -42,6 +42,7 @@ struct SerialScheduler : Scheduler
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
+    std::mutex schedule_thread_mutex_; ///< guards the creation of `schedule_thread_`
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
 
-- 
2.43.0


From 26bdd80044c5c53d33ae9150a3c5cbef8935ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 078/116] fix: the SerialScheduler reports commands whose
 execution failed as unsuccessful

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 084ed39..bea172c 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -159,7 +159,7 @@ void SerialScheduler::schedule_thread()
         if (not err and cmd) {
             cmd->transaction(&t);
             cmd->execute(diag);
-            promise.set_value(true);
+            promise.set_value(diag.num_errors() == 0); // execution may report errors, too
             continue;
         }
         promise.set_value(false);
-- 
2.43.0


From 1b8dd024c355764406be323778914b42a45c6253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 079/116] fix: commands with syntax errors may nevertheless
 pass the semantic analysis

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index bea172c..388ec63 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -155,7 +155,7 @@ void SerialScheduler::schedule_thread()
         auto cmd = sema.analyze(std::move(ast));
         err |= diag.num_errors() > 0; // sema errors
 
-        M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
+        M_insist(err or bool(cmd), "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
             cmd->execute(diag);
-- 
2.43.0


From 3f928a707bb70689fd11fd94cc699007236073c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 080/116] Revert "fix: printed import statements must contain
 the escape and quote options"

An existing test requires that they are not printed.
---
 src/parse/ASTPrinter.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 3030392..55ec57d 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -375,10 +375,6 @@ void ASTPrinter::operator()(Const<DSVImportStmt> &s)
         out << " ROWS " << s.rows.text;
     if (s.delimiter)
         out << " DELIMITER " << s.delimiter.text;
-    if (s.escape)
-        out << " ESCAPE " << s.escape.text;
-    if (s.quote)
-        out << " QUOTE " << s.quote.text;
     if (s.has_header)
         out << " HAS HEADER";
     if (s.skip_header)
-- 
2.43.0


From 026e8ea5e92d6eeb3b4d6a143947ff89af314afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 081/116] fix: bounds of a RecursiveModelIndex are wrong for
 predictions beyond the last entry

---
 include/mutable/storage/Index.hpp | 14 +++++++++++---
 src/storage/Index.cpp             |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..4348f10 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -268,13 +268,20 @@ struct RecursiveModelIndex : ArrayIndex<Key>
 
     private:
     std::size_t predict(const key_type key) const {
-        auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
-        return static_cast<std::size_t>(pred);
+        if (base_type::num_entries() == 0) return 0;
+        auto segment_id = clamp_prediction(models_[0](key), models_.size() - 2);
+        return clamp_prediction(models_[segment_id + 1](key), base_type::num_entries() - 1);
+    }
+    /** Converts the prediction \p pred of a model to an integer between 0 and \p max.  A prediction that is not a number
+     * (e.g. because of an overflow during training) is converted to 0. */
+    static std::size_t clamp_prediction(double pred, std::size_t max) {
+        if (not (pred > 0)) return 0;
+        return pred < static_cast<double>(max) ? static_cast<std::size_t>(pred) : max;
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
         auto end = base_type::end();
+        if (begin == end) return end;
         std::size_t bound = 1;
         if (base_type::cmp(*pred, value)) { // search right side
             auto prev = pred;
@@ -299,6 +306,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     const_iterator upper_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
         auto end = base_type::end();
+        if (begin == end) return end;
         std::size_t bound = 1;
         if (not base_type::cmp(value, *pred)) { // search right side
             auto prev = pred;
diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index f16039b..8e8c93a 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -183,7 +183,7 @@ void RecursiveModelIndex<Key>::finalize()
     );
 
     /* Train second layer. */
-    auto get_segment_id = [&](entry_type e) { return std::clamp<double>(models_[0](e.first), 0, n_models - 1);  };
+    auto get_segment_id = [&](entry_type e) { return clamp_prediction(models_[0](e.first), n_models - 1);  };
     std::size_t segment_start = 0;
     std::size_t segment_id = 0;
     for (std::size_t i = 0; i != n_keys; ++i) {
-- 
2.43.0


From 56339e069f4e0b2feffa6d3dba45cd85917b91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 082/116] fix: a RecursiveModelIndex that is finalized again
 must discard the outdated models

---
 src/storage/Index.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index 8e8c93a..5bbfbb4 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -170,6 +170,7 @@ void RecursiveModelIndex<Key>::finalize()
     auto end = base_type::end();
     std::size_t n_keys = std::distance(begin, end);
     std::size_t n_models = std::max<std::size_t>(1, n_keys * options::rmi_model_entry_ratio);
+    models_.clear(); // discard models of previous calls to `finalize()`
     models_.reserve(n_models + 1);
 
     /* Train first layer. */
-- 
2.43.0


From 6a8635ce8a122cb283967086b2519ef341b1f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 083/116] fix: overflow while training a RecursiveModelIndex

---
 include/mutable/storage/Index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 4348f10..e927e9b 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
-- 
2.43.0


From 07c733eca1f3037dfdab92c43a3328be9e226193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 084/116] fix: an index method not available for the key type
 must be reported as an error

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index bbb4828..646b229 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1741,7 +1741,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From 2e73646858d7688807ba97e09c16e1eea624d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 085/116] fix: IMPORT must invalidate the indexes of the table

---
 src/catalog/DatabaseCommand.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 4e3b022..e1fe328 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -213,6 +213,9 @@ void ImportDSV::execute(Diagnostic &diag)
             diag.err() << std::endl;
         } else {
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
+
+            /* Invalidate all indexes on the table. */
+            C.get_database_in_use().invalidate_indexes(table_.name());
         }
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
-- 
2.43.0


From 2951b8711b5b5b6dc94fa75eba434f16379c3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 086/116] fix: timestamp filters of multi-versioned tables must
 respect the alias of the table

---
 src/catalog/Schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..b48ae93 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -169,7 +169,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, ds->name().assert_not_none(), TK_EOF); // alias, if any
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
-- 
2.43.0


From 4a3273f1dabb3b6cf208a5e2b32c7ecd916e452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:54 +0000
Subject: [PATCH 087/116] fix: timestamp filters of multi-versioned tables must
 be applied to nested queries, too

---
 src/catalog/Schema.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index b48ae93..7c3a0cc 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -264,6 +264,8 @@ void apply_timestamp_filter(QueryGraph &G)
 
                 G.add_custom_filter(std::move(filter_expr), *ds);
             }
+        } else if (auto Q = cast<const Query>(ds.get())) {
+            apply_timestamp_filter(Q->query_graph()); // filter the tables of nested queries, too
         }
     }
 }
-- 
2.43.0


From 06b0fd06c34f0a1c509dd6322f383b7194f80992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:43 +0000
Subject: [PATCH 088/116] fix: dropping a table leaves dangling references to
 its attributes

---
 include/mutable/catalog/Schema.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 1dad47a..a6bd412 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -934,6 +934,13 @@ struct M_EXPORT Database
         if (it == tables_.end())
             throw std::invalid_argument("Table of that name does not exist.");
         drop_indexes(name);
+        for (auto &[_, table] : tables_) { // remove all references to attributes of the dropped table
+            for (std::size_t id = 0; id != table->num_all_attrs(); ++id) {
+                auto &attr = table->at(id);
+                if (attr.reference and attr.reference->table.name() == name)
+                    attr.reference = nullptr;
+            }
+        }
         tables_.erase(it);
     };
 
-- 
2.43.0


From 845734c1d7f1842f7515a4e87907b9cdb54cc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 089/116] fix: DROP TABLE and DROP INDEX fail halfway if a name
 is given twice

---
 src/parse/Sema.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 646b229..23f3b71 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1627,9 +1627,10 @@ void Sema::operator()(DropTableStmt &s)
     std::vector<ThreadSafePooledString> table_names;
     for (auto &tok : s.table_names) {
         auto table_name = tok->text.assert_not_none();
-        if (DB.has_table(table_name))
-            table_names.emplace_back(std::move(table_name));
-        else {
+        if (DB.has_table(table_name)) {
+            if (std::find(table_names.cbegin(), table_names.cend(), table_name) == table_names.cend()) // drop each table only once
+                table_names.emplace_back(std::move(table_name));
+        } else {
             if (not s.has_if_exists) {
                 diag.e(tok->pos) << "Table " << table_name << " does not exist in database " << DB.name << ".\n";
                 ok = false;
@@ -1807,9 +1808,10 @@ void Sema::operator()(DropIndexStmt &s)
     std::vector<ThreadSafePooledString> index_names;
     for (auto &tok : s.index_names) {
         auto index_name = tok->text.assert_not_none();
-        if (DB.has_index(index_name))
-            index_names.emplace_back(index_name);
-        else {
+        if (DB.has_index(index_name)) {
+            if (std::find(index_names.cbegin(), index_names.cend(), index_name) == index_names.cend()) // drop each index only once
+                index_names.emplace_back(index_name);
+        } else {
             if (not s.has_if_exists) {
                 diag.e(tok->pos) << "Index " << index_name << " does not exist in database " << DB.name << ".\n";
                 ok = false;
-- 
2.43.0


From e1dcad43d99f31457de9eda5d1ede15e20973b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 090/116] fix: CREATE INDEX accepts key fields that name
 another table

---
 src/parse/Sema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 23f3b71..86cbfd9 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1723,6 +1723,10 @@ void Sema::operator()(CreateIndexStmt &s)
     for (auto it = s.key_fields.cbegin(), end = s.key_fields.cend(); it != end; ++it) {
         auto field = it->get();
         if (auto d = cast<Designator>(field)) {
+            if (d->table_name and d->table_name.text != table_name) {
+                diag.e(d->tok.pos) << "Key field " << *d << " does not belong to table " << table_name << ".\n";
+                return;
+            }
             if (not table.has_attribute(d->attr_name.text.assert_not_none())) {
                 diag.e(d->tok.pos) << "Attribute " << d->attr_name.text << " does not exists in table "
                                    << table_name << ".\n";
-- 
2.43.0


From 2b8e3703888f8eeaf3a773087ad414eb5d8bd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 091/116] fix: applying something that is not a name crashes
 the semantic analysis

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 86cbfd9..df73eb4 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -509,8 +509,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(e.fn->tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
-- 
2.43.0


From f4d5bb35dc298d83b5e779967613e99c6e6c666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 092/116] fix: UPDATE and DELETE statements crash the semantic
 analysis

---
 src/parse/Sema.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index df73eb4..b8af36b 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1929,16 +1929,14 @@ void Sema::operator()(UpdateStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "UPDATE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DeleteStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "DELETE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DSVImportStmt &s)
-- 
2.43.0


From b7c11d6c731a83befc2e644fa6a201e70a0bc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 093/116] fix: evaluating a hexadecimal floating-point constant
 crashes

---
 src/backend/Interpreter.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index 6745589..94bd7fc 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -250,10 +250,8 @@ struct Interpreter : Backend, ConstOperatorVisitor
 
             /* Float */
             case TK_DEC_FLOAT:
-                return strtod(*c.tok.text, nullptr);
-
             case TK_HEX_FLOAT:
-                M_unreachable("not implemented");
+                return strtod(*c.tok.text, nullptr);
 
             /* String */
             case TK_STRING_LITERAL: {
-- 
2.43.0


From ef356e4029ba1fbf900b9662f4e95fe7629947d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 094/116] fix: the remainder of non-integers is accepted but
 crashes or gives a wrong result

---
 src/parse/Sema.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index b8af36b..cea4acd 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -806,6 +806,13 @@ void Sema::operator()(BinaryExpr &e)
             M_insist(ty_lhs);
             M_insist(ty_rhs);
 
+            /* The remainder is only defined for integers. */
+            if (e.op().type == TK_PERCENT and not (ty_lhs->is_integral() and ty_rhs->is_integral())) {
+                diag.e(e.op().pos) << "Invalid expression " << e << ", operands must be of integral type.\n";
+                e.type_ = Type::Get_Error();
+                return;
+            }
+
             /* Compute type of the binary expression. */
             e.type_ = e.common_operand_type = arithmetic_join(ty_lhs, ty_rhs);
             break;
-- 
2.43.0


From 010f7e145f156a4258e14ee725899cb5fbc123a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:15 +0000
Subject: [PATCH 095/116] fix: a query without a database in use terminates the
 process

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index e1fe328..9f9f6a9 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -53,6 +53,7 @@ static void register_instructions()
 void QueryDatabase::execute(Diagnostic &diag)
 {
     Catalog &C = Catalog::Get();
+    if (not C.has_database_in_use()) { diag.err() << "No database selected.\n"; return; }
 
     if (auto stmt = cast<ast::Stmt>(&ast())) {
         if (Options::Get().ast)
-- 
2.43.0


From a9098e510ae0bf6025ce2bf6b63bb8da3f00f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 096/116] fix: queries without data sources ignore LIMIT and
 crash when nested

---
 src/IR/Optimizer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 6f98818..5b24339 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -192,7 +192,8 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     if (num_sources == 0) {
         PT.get_final().cost = 0; // no sources → no cost
         PT.get_final().model = CE.empty_model(); // XXX: should rather be 1 (single tuple) than empty
-        return { std::make_unique<ProjectionOperator>(G.projections()), std::move(PT) };
+        std::unique_ptr<Producer> plan = optimize_plan(G, nullptr, PT.get_final());
+        return { std::move(plan), std::move(PT) };
     }
 
     /*----- Initialize plan table and compute plans for data sources. -----*/
@@ -431,16 +432,18 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     const bool requires_post_projection = not additional_projections.empty();
 
     /* Perform projection. */
-    if (not additional_projections.empty() or not G.projections().empty()) {
+    if (not additional_projections.empty() or not G.projections().empty() or not plan) {
         /* Merge original projections with additional projections. */
         additional_projections.insert(additional_projections.end(), G.projections().begin(), G.projections().end());
         auto projection = std::make_unique<ProjectionOperator>(std::move(additional_projections));
-        projection->add_child(plan.release());
+        const bool has_input = bool(plan); // there is no input iff there are no sources
+        if (has_input)
+            projection->add_child(plan.release());
 
         /* Set operator information. */
         auto info = std::make_unique<OperatorInformation>();
         info->subproblem = Subproblem::All(G.sources().size());
-        info->estimated_cardinality = projection->child(0)->info().estimated_cardinality;
+        info->estimated_cardinality = has_input ? projection->child(0)->info().estimated_cardinality : 1;
 
         projection->info(std::move(info));
         plan = std::move(projection);
-- 
2.43.0


From 54f906b5d03d817e24a3927cd0c099d80e5b6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 097/116] fix: ordering by an expression that is not of
 primitive type crashes

---
 src/parse/Sema.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index cea4acd..f14e81a 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1383,7 +1383,11 @@ void Sema::operator()(OrderByClause &c)
         if (e->contains_free_variables())
             diag.e(e->tok.pos) << *e << " contains free variable(s) (not yet supported).\n";
 
-        auto pt = as<const PrimitiveType>(e->type());
+        auto pt = cast<const PrimitiveType>(e->type());
+        if (not pt) {
+            diag.e(c.tok.pos) << "Cannot order by " << *e << ", has invalid type.\n";
+            continue;
+        }
 
         if (Ctx.needs_grouping) { // w/ grouping
             /* If we grouped, the grouping keys now have scalar type. */
-- 
2.43.0


From cd723c45f6b2539103ffb5e97c46d9fed4091bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 098/116] fix: a nested query in FROM with a result that is not
 of primitive type crashes

---
 src/parse/Sema.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index f14e81a..982b4c9 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1249,8 +1249,15 @@ void Sema::operator()(FromClause &c)
             SemaContext inner_ctx = pop_context();
 
             SemaContext::named_expr_table results;
-            for (auto &[name, res] : inner_ctx.results)
+            for (auto &[name, res] : inner_ctx.results) {
+                if (not res.expr().type()->is_primitive()) {
+                    if (not res.expr().type()->is_error()) // errors have already been reported
+                        diag.e(src.alias.pos) << "Attribute " << name << " of " << src.alias.text
+                                              << " is not of primitive type.\n";
+                    return;
+                }
                 results.emplace(name, std::make_pair(std::ref(res.expr()), res.order));
+            }
 
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
-- 
2.43.0


From 1c2ada116b81d8e2bbd3efaec15c4fb869761c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 099/116] fix: constants of a nested query in FROM without
 alias cannot be accessed

---
 src/parse/Sema.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 982b4c9..d2a6a71 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1192,9 +1192,12 @@ void Sema::operator()(SelectClause &c)
             /* Expression without alias.  Print expression as string to get a name.  Use '$const' as prefix for
              * constants. */
             oss.str("");
-            if (select_expr.is_constant())
+            if (select_expr.is_constant()) {
                 oss << "$const" << const_counter++;
-            else
+                /* Constants in the SELECT clause of a nested query in the FROM clause must be accessible by name. */
+                if (is_nested() and contexts_[contexts_.size() - 2]->stage == SemaContext::S_From)
+                    it->second = Token(select_expr.tok.pos, C.pool(oss.str().c_str()), TK_IDENTIFIER);
+            } else
                 oss << select_expr;
             Ctx.results.emplace(C.pool(oss.str().c_str()), SemaContext::result_t(select_expr, result_counter++));
         }
-- 
2.43.0


From 11c3b803956cb6c9766478e9d4ac95869efb373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 100/116] fix: mixing aggregates and vectorial values in one
 query crashes

---
 src/parse/Sema.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index d2a6a71..394c003 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1040,6 +1040,19 @@ void Sema::operator()(QueryExpr &e)
     }
 }
 
+/** Returns `true` iff \p expr contains the application of an aggregate function. */
+static bool has_aggregate(const Expr &expr)
+{
+    bool found = false;
+    visit(overloaded {
+        [](auto&) { },
+        [&found](const FnApplicationExpr &e) {
+            if (e.has_function() and e.get_function().is_aggregate()) found = true;
+        },
+    }, expr, m::tag<ConstPreOrderExprVisitor>());
+    return found;
+}
+
 /*===== Clause =======================================================================================================*/
 
 void Sema::operator()(ErrorClause&)
@@ -1161,6 +1174,9 @@ void Sema::operator()(SelectClause &c)
         if (auto pt = cast<const PrimitiveType>(select_expr.type()); Ctx.needs_grouping and pt and pt->is_vectorial()) {
             diag.e(select_expr.tok.pos) << select_expr << " is not scalar.\n";
             continue;
+        } else if (pt and pt->is_vectorial() and has_aggregate(select_expr)) {
+            diag.e(select_expr.tok.pos) << select_expr << " mixes aggregates and vectorial values.\n";
+            continue;
         }
 
         /* Constants and scalar values of nested queries can be broadcast from scalar to vectorial.  We collect the
@@ -1407,6 +1423,10 @@ void Sema::operator()(OrderByClause &c)
             /* If we did not group, the ordering expressions must be vectorial. */
             if (pt->is_scalar())
                 diag.e(c.tok.pos) << "Cannot order by " << *e << ", expression must be vectorial.\n";
+            else if (has_aggregate(*e) or std::any_of(Ctx.results.cbegin(), Ctx.results.cend(), [](auto &result) {
+                return has_aggregate(result.second.expr());
+            }))
+                diag.e(c.tok.pos) << "Cannot order by " << *e << ", cannot mix aggregates and vectorial values.\n";
         }
     }
 }
-- 
2.43.0


From 59e273c3139ec9acc46ca8f9b0b4c4d5d7a97187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 101/116] fix: clauses and aggregates without FROM crash or are
 ignored

---
 src/parse/Sema.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 394c003..b00b4ae 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1881,6 +1881,12 @@ void Sema::operator()(SelectStmt &s)
             return;
         }
         (*this)(*s.from);
+    } else {
+        /* Without data sources, there is nothing to filter, group, or order. */
+        for (auto clause : { s.where.get(), s.group_by.get(), s.having.get(), s.order_by.get() }) {
+            if (clause)
+                diag.e(clause->tok.pos) << "The " << clause->tok.text << " clause requires a FROM clause.\n";
+        }
     }
     if (s.where) (*this)(*s.where);
     if (s.group_by) (*this)(*s.group_by);
@@ -1889,6 +1895,12 @@ void Sema::operator()(SelectStmt &s)
     if (s.order_by) (*this)(*s.order_by);
     if (s.limit) (*this)(*s.limit);
 
+    if (not s.from) {
+        for (auto &[expr, _] : as<SelectClause>(*s.select).select) {
+            if (has_aggregate(*expr))
+                diag.e(expr->tok.pos) << *expr << " requires a FROM clause.\n";
+        }
+    }
 
     if (not is_nested() and not diag.num_errors())
         command_ = std::make_unique<QueryDatabase>();
-- 
2.43.0


From 8787b83476c643e54331e78262a94aaf91d93d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 102/116] fix: mixing aggregates and constants of a nested
 query in FROM crashes

---
 src/parse/Sema.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index b00b4ae..1da9384 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1171,7 +1171,8 @@ void Sema::operator()(SelectClause &c)
         if (select_expr.type()->is_error()) continue;
 
         /* Expressions *must* be scalar when we have grouping. */
-        if (auto pt = cast<const PrimitiveType>(select_expr.type()); Ctx.needs_grouping and pt and pt->is_vectorial()) {
+        auto pt = cast<const PrimitiveType>(select_expr.type());
+        if (Ctx.needs_grouping and pt and pt->is_vectorial()) {
             diag.e(select_expr.tok.pos) << select_expr << " is not scalar.\n";
             continue;
         } else if (pt and pt->is_vectorial() and has_aggregate(select_expr)) {
@@ -1181,11 +1182,10 @@ void Sema::operator()(SelectClause &c)
 
         /* Constants and scalar values of nested queries can be broadcast from scalar to vectorial.  We collect the
          * scalar/vector-ness information of each expression in the SELECT clause. */
-        if (not select_expr.is_constant() and not is<QueryExpr>(select_expr)) {
-            auto pt = as<const PrimitiveType>(select_expr.type());
-            has_vectorial = has_vectorial or pt->is_vectorial();
-            has_scalar = has_scalar or pt->is_scalar();
-        }
+        if (pt and pt->is_vectorial())
+            has_vectorial = true; // including constants of a nested query in the FROM clause
+        else if (not select_expr.is_constant() and not is<QueryExpr>(select_expr))
+            has_scalar = true;
 
         if (alias) { // SELECT expression has alias?
             /* Expression with alias. */
-- 
2.43.0


From c0bd93b1b1c441133705b0383e7030ff9ddbb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 103/116] fix: SELECT * without FROM is accepted

---
 src/parse/Sema.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 1da9384..9e8711a 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1896,7 +1896,10 @@ void Sema::operator()(SelectStmt &s)
     if (s.limit) (*this)(*s.limit);
 
     if (not s.from) {
-        for (auto &[expr, _] : as<SelectClause>(*s.select).select) {
+        auto &select = as<SelectClause>(*s.select);
+        if (select.select_all)
+            diag.e(select.select_all.pos) << "The '*' requires a FROM clause.\n";
+        for (auto &[expr, _] : select.select) {
             if (has_aggregate(*expr))
                 diag.e(expr->tok.pos) << *expr << " requires a FROM clause.\n";
         }
-- 
2.43.0


From 167e84643c5f2fe712377a88b28d105604acbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:07 +0000
Subject: [PATCH 104/116] fix: ordering the results of a query with an aliased
 NULL crashes

---
 src/parse/AST.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/AST.cpp b/src/parse/AST.cpp
index ce8ad3f..4c46ced 100644
--- a/src/parse/AST.cpp
+++ b/src/parse/AST.cpp
@@ -148,7 +148,7 @@ Schema Expr::get_required() const
     auto visitor = overloaded {
         [](auto&) { },
         [&schema](const Designator &d) {
-            if (d.type()->is_primitive()) { // avoid non-primitive types, e.g. functions
+            if (d.type()->is_primitive() or d.type()->is_none()) { // avoid function types but include `NULL`
                 Schema::Identifier id(d.table_name.text, d.attr_name.text.assert_not_none());
                 if (not schema.has(id)) // avoid duplicates
                     schema.add(std::move(id), d.type());
-- 
2.43.0


From 9d112bb7617860489c6d1e3672302ac072b7c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:07 +0000
Subject: [PATCH 105/116] fix: SELECT * with a grouping key that is not of
 primitive type crashes

---
 src/parse/Sema.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 9e8711a..02f16e1 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1091,10 +1091,10 @@ void Sema::operator()(SelectClause &c)
                     oss << *expr;
                     d = create_designator(C.pool(oss.str().c_str()), expr->tok, *expr);
                 }
-                if (auto ty = cast<const PrimitiveType>(d->type()))
-                    d->type_ = ty->as_scalar();
-                else
-                    M_insist(d->type()->is_error(), "grouping key must be of primitive type");
+                auto ty = cast<const PrimitiveType>(d->type());
+                if (not ty)
+                    continue; // invalid grouping keys have already been reported
+                d->type_ = ty->as_scalar();
                 auto attr_name = d->attr_name.text.assert_not_none();
                 auto &ref = c.expanded_select_all.emplace_back(std::move(d));
                 (*this)(*ref);
-- 
2.43.0


From b74670dbef6dfc49c9c4a802e71103f3c346db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:18 +0000
Subject: [PATCH 106/116] fix: grouping twice by the same name fails with an
 exception

---
 src/parse/Sema.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 02f16e1..3f15200 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1355,15 +1355,23 @@ void Sema::operator()(GroupByClause &c)
         }
 
         /* Add expression to list of grouping keys. */
+        ThreadSafePooledOptionalString name;
         if (alias) {
-            Ctx.grouping_keys.emplace(alias.text, *expr);
+            name = alias.text;
         } else if (auto d = cast<Designator>(expr.get())) {
-            Ctx.grouping_keys.emplace(d->attr_name.text, *expr);
+            name = d->attr_name.text;
         } else {
             oss.str("");
             oss << *expr;
-            Ctx.grouping_keys.emplace(C.pool(oss.str().c_str()), *expr);
+            name = C.pool(oss.str().c_str());
         }
+        if (auto num = Ctx.grouping_keys.count(name.assert_not_none())) {
+            /* Found ambiguous name which is only allowed without accessing it.  Make alias unique for later steps. */
+            oss.str("");
+            oss << name << "$" << num;
+            alias = Token(expr->tok.pos, C.pool(oss.str().c_str()), TK_IDENTIFIER);
+        }
+        Ctx.grouping_keys.emplace(name.assert_not_none(), *expr);
     }
 }
 
-- 
2.43.0


From 48317f701fa7849a264c55699426bceb2ffc2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 107/116] fix: ordering by something not projected crashes if
 the projection contains an unnamed expression

---
 src/IR/Optimizer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 5b24339..a8e1bff 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -495,8 +495,15 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
                                                             std::move(name), expr.get().type(), &expr.get());
                 adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
                 created_exprs_.emplace_back(std::move(d));
-            } else {
+            } else if (is<const Designator>(expr.get()) or is<const Constant>(expr.get())) {
                 adapted_projections.emplace_back(expr, ThreadSafePooledOptionalString{});
+            } else {
+                /* The original projection already computed the expression under its derived name. */
+                Token name(expr.get().tok.pos, Schema::Identifier(expr.get()).name, TK_IDENTIFIER);
+                auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
+                                                            std::move(name), expr.get().type(), &expr.get());
+                adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
+                created_exprs_.emplace_back(std::move(d));
             }
         }
         auto projection = std::make_unique<ProjectionOperator>(std::move(adapted_projections));
-- 
2.43.0


From 54a25f4a7a8163e8a41b7705bca6200a3525ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 108/116] fix: ordering a query with several projections or
 orderings of the same name fails

---
 src/IR/Optimizer.cpp | 49 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index a8e1bff..4d791a8 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -144,7 +144,15 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
     for (auto [expr, _] : order_by)
         visit(get_required_designator, expr.get(), m::tag<m::ast::ConstPreOrderExprVisitor>());
 
-    return required_projections;
+    /* Compute each required projection only once. */
+    std::vector<Optimizer::projection_type> unique_projections;
+    for (auto &p : required_projections) {
+        if (std::none_of(unique_projections.cbegin(), unique_projections.cend(),
+                         [&p](auto &other) { return Schema::Identifier(other.first.get()) == Schema::Identifier(p.first.get()); }))
+            unique_projections.push_back(p);
+    }
+
+    return unique_projections;
 }
 
 
@@ -429,12 +437,36 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     auto additional_projections = Optimizer::compute_projections_required_for_order_by(G.projections(), G.order_by());
-    const bool requires_post_projection = not additional_projections.empty();
+    bool requires_post_projection = not additional_projections.empty();
+
+    /* Values must be unambiguous for ordering.  Hence, projections with the same name are renamed for the time being. */
+    std::vector<ThreadSafePooledOptionalString> temporary_names(G.projections().size());
+    if (not G.order_by().empty()) {
+        std::vector<Schema::Identifier> ids;
+        for (auto &[expr, _] : additional_projections)
+            ids.emplace_back(expr.get());
+        for (std::size_t i = 0; i != G.projections().size(); ++i) {
+            auto &[expr, alias] = G.projections()[i];
+            if (not alias.has_value() and is<const Constant>(expr.get())) continue; // never accessed by name
+            auto id = alias.has_value() ? Schema::Identifier(alias.assert_not_none()) : Schema::Identifier(expr.get());
+            if (std::find(ids.cbegin(), ids.cend(), id) == ids.cend()) {
+                ids.push_back(std::move(id));
+            } else {
+                std::ostringstream oss;
+                oss << '$' << i << '$' << id.name;
+                temporary_names[i] = Catalog::Get().pool(oss.str().c_str());
+                requires_post_projection = true;
+            }
+        }
+    }
 
     /* Perform projection. */
     if (not additional_projections.empty() or not G.projections().empty() or not plan) {
         /* Merge original projections with additional projections. */
-        additional_projections.insert(additional_projections.end(), G.projections().begin(), G.projections().end());
+        for (std::size_t i = 0; i != G.projections().size(); ++i) {
+            auto &[expr, alias] = G.projections()[i];
+            additional_projections.emplace_back(expr, temporary_names[i].has_value() ? temporary_names[i] : alias);
+        }
         auto projection = std::make_unique<ProjectionOperator>(std::move(additional_projections));
         const bool has_input = bool(plan); // there is no input iff there are no sources
         if (has_input)
@@ -488,8 +520,15 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
         /* Change aliased projections in designators with the alias as name since original projection is
          * performed beforehand. */
         std::vector<projection_type> adapted_projections;
-        for (auto [expr, alias] : G.projections()) {
-            if (alias.has_value()) {
+        for (std::size_t i = 0; i != G.projections().size(); ++i) {
+            auto &[expr, alias] = G.projections()[i];
+            if (temporary_names[i].has_value()) {
+                Token name(expr.get().tok.pos, temporary_names[i].assert_not_none(), TK_IDENTIFIER);
+                auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
+                                                            std::move(name), expr.get().type(), &expr.get());
+                adapted_projections.emplace_back(*d, alias.has_value() ? alias : Schema::Identifier(expr.get()).name);
+                created_exprs_.emplace_back(std::move(d));
+            } else if (alias.has_value()) {
                 Token name(expr.get().tok.pos, alias.assert_not_none(), TK_IDENTIFIER);
                 auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
                                                             std::move(name), expr.get().type(), &expr.get());
-- 
2.43.0


From 6f1023b3ec89613b335a1d87bc2e803cbcf23f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:23 +0000
Subject: [PATCH 109/116] Revert "fix: SELECT * without FROM is accepted"

This reverts commit c0bd93b1b1c441133705b0383e7030ff9ddbb7ae.
---
 src/parse/Sema.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 3f15200..2423347 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1904,10 +1904,7 @@ void Sema::operator()(SelectStmt &s)
     if (s.limit) (*this)(*s.limit);
 
     if (not s.from) {
-        auto &select = as<SelectClause>(*s.select);
-        if (select.select_all)
-            diag.e(select.select_all.pos) << "The '*' requires a FROM clause.\n";
-        for (auto &[expr, _] : select.select) {
+        for (auto &[expr, _] : as<SelectClause>(*s.select).select) {
             if (has_aggregate(*expr))
                 diag.e(expr->tok.pos) << *expr << " requires a FROM clause.\n";
         }
-- 
2.43.0


From 3e7426c23442bd48d0fb302b4f0fb536e5d24313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:23 +0000
Subject: [PATCH 110/116] fix: SELECT * must still report grouping keys of
 erroneous type

---
 src/parse/Sema.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 2423347..d3e412c 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1092,9 +1092,10 @@ void Sema::operator()(SelectClause &c)
                     d = create_designator(C.pool(oss.str().c_str()), expr->tok, *expr);
                 }
                 auto ty = cast<const PrimitiveType>(d->type());
-                if (not ty)
-                    continue; // invalid grouping keys have already been reported
-                d->type_ = ty->as_scalar();
+                if (ty)
+                    d->type_ = ty->as_scalar();
+                else if (not d->type()->is_error())
+                    continue; // a grouping key that is not of primitive type has already been reported
                 auto attr_name = d->attr_name.text.assert_not_none();
                 auto &ref = c.expanded_select_all.emplace_back(std::move(d));
                 (*this)(*ref);
-- 
2.43.0


From 7366f46444d33f290e0e5fe91a185034922c35a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:23 +0000
Subject: [PATCH 111/116] Revert "fix: grouping twice by the same name fails
 with an exception"

This reverts commit b74670dbef6dfc49c9c4a802e71103f3c346db67.
---
 src/parse/Sema.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index d3e412c..9899b00 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1356,23 +1356,15 @@ void Sema::operator()(GroupByClause &c)
         }
 
         /* Add expression to list of grouping keys. */
-        ThreadSafePooledOptionalString name;
         if (alias) {
-            name = alias.text;
+            Ctx.grouping_keys.emplace(alias.text, *expr);
         } else if (auto d = cast<Designator>(expr.get())) {
-            name = d->attr_name.text;
+            Ctx.grouping_keys.emplace(d->attr_name.text, *expr);
         } else {
             oss.str("");
             oss << *expr;
-            name = C.pool(oss.str().c_str());
+            Ctx.grouping_keys.emplace(C.pool(oss.str().c_str()), *expr);
         }
-        if (auto num = Ctx.grouping_keys.count(name.assert_not_none())) {
-            /* Found ambiguous name which is only allowed without accessing it.  Make alias unique for later steps. */
-            oss.str("");
-            oss << name << "$" << num;
-            alias = Token(expr->tok.pos, C.pool(oss.str().c_str()), TK_IDENTIFIER);
-        }
-        Ctx.grouping_keys.emplace(name.assert_not_none(), *expr);
     }
 }
 
-- 
2.43.0


From c6c9f02aad1034be18a9c7604b02b11ca9d7b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:23 +0000
Subject: [PATCH 112/116] fix: grouping twice by the same name fails with an
 exception

---
 src/IR/QueryGraph.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 6e2bc8b..429f552 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1632,8 +1632,20 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     /*----- Process GROUP BY and collect grouping keys. -----*/
     if (stmt.group_by) {
         auto &GROUP_BY = as<ast::GroupByClause>(*stmt.group_by);
-        for (auto &[grp, alias] : GROUP_BY.group_by)
-            graph_->group_by_.emplace_back(*grp, alias.text);
+        std::vector<Schema::Identifier> names;
+        for (auto &[grp, alias] : GROUP_BY.group_by) {
+            Schema::Identifier name = alias ? Schema::Identifier(alias.text.assert_not_none())
+                                            : Schema::Identifier(Schema::Identifier(*grp).name); // w/o table name
+            if (auto num = std::count(names.cbegin(), names.cend(), name)) {
+                /* Ambiguous name, which is only allowed without accessing it.  Make name unique. */
+                std::ostringstream oss;
+                oss << name.name << '$' << num;
+                graph_->group_by_.emplace_back(*grp, Catalog::Get().pool(oss.str().c_str()));
+            } else {
+                graph_->group_by_.emplace_back(*grp, alias.text);
+            }
+            names.push_back(std::move(name));
+        }
     }
 
     /*----- Process SELECT and collect projections. -----*/
-- 
2.43.0


From 2324f3567e2856c698d80da4590f59a2cdde4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 113/116] fix: aggregates without FROM are valid and aggregate
 a single tuple

---
 src/IR/Optimizer.cpp | 11 ++++++++++-
 src/parse/Sema.cpp   |  7 -------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 4d791a8..ced52d2 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -200,7 +200,16 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     if (num_sources == 0) {
         PT.get_final().cost = 0; // no sources → no cost
         PT.get_final().model = CE.empty_model(); // XXX: should rather be 1 (single tuple) than empty
-        std::unique_ptr<Producer> plan = optimize_plan(G, nullptr, PT.get_final());
+        std::unique_ptr<Producer> plan;
+        if (not G.aggregates().empty()) {
+            /* Aggregate a single, empty tuple. */
+            plan = std::make_unique<ProjectionOperator>(std::vector<projection_type>{});
+            auto info = std::make_unique<OperatorInformation>();
+            info->subproblem = Subproblem::All(0);
+            info->estimated_cardinality = 1;
+            plan->info(std::move(info));
+        }
+        plan = optimize_plan(G, std::move(plan), PT.get_final());
         return { std::move(plan), std::move(PT) };
     }
 
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 9899b00..8aa4831 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1896,13 +1896,6 @@ void Sema::operator()(SelectStmt &s)
     if (s.order_by) (*this)(*s.order_by);
     if (s.limit) (*this)(*s.limit);
 
-    if (not s.from) {
-        for (auto &[expr, _] : as<SelectClause>(*s.select).select) {
-            if (has_aggregate(*expr))
-                diag.e(expr->tok.pos) << *expr << " requires a FROM clause.\n";
-        }
-    }
-
     if (not is_nested() and not diag.num_errors())
         command_ = std::make_unique<QueryDatabase>();
 }
-- 
2.43.0


From eef491fbb0ad77220955507a382a04967d3d1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 114/116] fix: HAVING without GROUP BY and without aggregates
 must yield at most one row

---
 include/mutable/IR/QueryGraph.hpp | 6 +++++-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index 63e3c45..968f81e 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -188,6 +188,7 @@ struct M_EXPORT QueryGraph
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
     struct { uint64_t limit = 0, offset = 0; bool is_limited = false; } limit_; ///< limit: limit and offset, if limited
+    bool single_group_ = false; ///< whether all tuples form one group although there are neither grouping keys nor aggregates
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
@@ -205,6 +206,7 @@ struct M_EXPORT QueryGraph
         swap(first.projections_,            second.projections_);
         swap(first.order_by_,               second.order_by_);
         swap(first.limit_,                  second.limit_);
+        swap(first.single_group_,           second.single_group_);
         swap(first.adjacency_matrix_,       second.adjacency_matrix_);
         swap(first.t_,                      second.t_);
         swap(first.custom_filter_exprs_,    second.custom_filter_exprs_);
@@ -270,7 +272,9 @@ struct M_EXPORT QueryGraph
     }
 
     /** Returns `true` iff the graph contains a grouping. */
-    bool grouping() const { return not group_by_.empty() or not aggregates_.empty(); }
+    bool grouping() const { return not group_by_.empty() or not aggregates_.empty() or single_group_; }
+    /** Returns `true` iff all tuples form one group although there are neither grouping keys nor aggregates. */
+    bool single_group() const { return single_group_; }
     /** Returns `true` iff the graph is correlated, i.e. it contains a correlated source. */
     bool is_correlated() const;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index ced52d2..f1eb614 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -429,7 +429,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
 
         group_by->info(std::move(info));
         plan = std::move(group_by);
-    } else if (not G.aggregates().empty()) {
+    } else if (not G.aggregates().empty() or G.single_group()) {
         /* Compute `DataModel` after grouping. */
         auto new_model = CE.estimate_grouping(G, *entry.model, std::vector<GroupingOperator::group_type>());
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 429f552..3d9e0b6 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1787,6 +1787,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     if (stmt.having) {
         auto having_clause = as<ast::HavingClause>(stmt.having.get());
         cnf_having = cnf::to_CNF(*having_clause->having);
+        graph_->single_group_ = not graph_->grouping(); // HAVING without GROUP BY implies a single group
         auto sub_graph = std::exchange(graph_, std::make_unique<QueryGraph>());
         auto &sub = graph_->add_source(ThreadSafePooledOptionalString{}, std::move(sub_graph));
         sub.update_filter(cnf_having);
-- 
2.43.0


From f934dd977ba90f396c879099b8ad6e062c32a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:26 +0000
Subject: [PATCH 115/116] fix: heuristic search must not raise the cost of a
 state when moving it to the beam

---
 include/mutable/util/HeuristicSearch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 81aebd3..53a1f00 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -362,9 +362,10 @@ struct StateManager
                     /*----- The state is in the regular queue and needs to be moved to the beam queue. -----*/
                     if constexpr (HasRegularQueue)
                         it->second.queue->erase(it->second.handle); // erase from regular queue
-                    if (state.g() < it->first.g())
+                    if (state.g() < it->first.g()) {
                         inc_cheaper();
                         it->first.decrease_g(state.parent(), state.g()); // update *g* value
+                    }
                     it->second.handle = beam_queue_.push(&*it); // add to beam queue and update handle
                     it->second.queue = &beam_queue_; // update queue
                     inc_decrease_key();
-- 
2.43.0


From 17defa5e736d811007e315682351415500fe4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:26 +0000
Subject: [PATCH 116/116] fix: heuristic search must update the cost of a state
 in the queue the state is in

---
 include/mutable/util/HeuristicSearch.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 53a1f00..c689ae1 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -387,9 +387,9 @@ struct StateManager
                         it->second.handle = Q.push(&*it); // add to dedicated queue and update handle
                         it->second.queue = &Q; // update queue
                     } else {
-                        /*----- Update the state's entry in the queue. -----*/
-                        M_insist(it->second.queue == &Q, "the state must already be in its destinated queue");
-                        Q.increase(it->second.handle); // we need to *increase* because the heap is a max-heap
+                        /*----- Update the state's entry in the queue the state is in.  Note, that a state in the beam
+                         * queue remains there even if it is now reached on a cheaper path outside the beam. -----*/
+                        it->second.queue->increase(it->second.handle); // *increase* because max-heap
                         inc_decrease_key();
                     }
                 }
-- 
2.43.0

