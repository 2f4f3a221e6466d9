From f90fbc1e1acba24fa4572f221727c4486d13d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 01/60] fix: evaluate __daisy_sym_pow in 64 bits and give it a
 definition in C

---
 rtl/include/daisy_rtl/daisy_rtl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..0c1f35d 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,18 +133,20 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) a* b + c
 
 // Implementation of integer functions for symbolic expressions
-inline int __daisy_sym_pow(int base, int exp) {
+static inline long long __daisy_sym_pow(long long base, long long exp) {
     if (exp < 0) {
         return 0;
     }
 
-    int result = 1;
+    long long result = 1;
     while (exp) {
         if (exp & 1) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From eae7f9084e47f8e2a745b2a68131d8b19f0dc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 02/60] fix: parenthesise the __daisy_fma macro

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 0c1f35d..392df89 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -130,7 +130,7 @@ void __daisy_capture_3d(
 
 #define __daisy_min(a, b) ((a) < (b) ? (a) : (b))
 #define __daisy_max(a, b) ((a) > (b) ? (a) : (b))
-#define __daisy_fma(a, b, c) a* b + c
+#define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
 static inline long long __daisy_sym_pow(long long base, long long exp) {
-- 
2.43.0


From 4f9d1bb3daa7bea80179163c2f8dbcdc2065be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 03/60] fix: reject capture index entries with missing fields
 instead of reading past them

---
 arg-capture-io/src/arg_capture_io.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..b0c4930 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -61,10 +61,10 @@ void ArgCapture::parse_from(
     std::filesystem::path base_path
 ) {
     ArgCapture capture(
-        entry["arg_idx"].get<int>(),
-        entry["after"].get<bool>(),
-        entry["primitive_type"].get<int>(),
-        entry["dims"].get<std::vector<size_t>>()
+        entry.at("arg_idx").get<int>(),
+        entry.at("after").get<bool>(),
+        entry.at("primitive_type").get<int>(),
+        entry.at("dims").get<std::vector<size_t>>()
     );
 
     if (entry.contains("data")) {
-- 
2.43.0


From f94fc37973716151281fbd77514671f8b0325040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 04/60] fix: compute the size of inline captures in 64 bits

---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index b0c4930..fcd9870 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From 87a573a76161939e04a18ce3fba1d9eaa4218c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 05/60] fix: keep the instrumentation trace valid JSON for
 regions without events or SDFG metadata

---
 rtl/src/instrumentation.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..9f47484 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -247,12 +247,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << md.element_type << "\",";
@@ -541,6 +543,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -568,13 +571,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From 00eea5c6cf0301edcdaedfd22597806137483b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 06/60] fix: escape strings in the instrumentation output

---
 rtl/src/instrumentation.cpp | 69 +++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 9f47484..e194545 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,25 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+// Escapes a string for use inside a JSON string literal
+static std::string json_escape(const std::string& str) {
+    std::string out;
+    out.reserve(str.size());
+    for (char c : str) {
+        if (c == '"' || c == '\\') {
+            out += '\\';
+            out += c;
+        } else if (static_cast<unsigned char>(c) < 0x20) {
+            char buf[8];
+            std::snprintf(buf, sizeof(buf), "\\u%04x", static_cast<unsigned>(static_cast<unsigned char>(c)));
+            out += buf;
+        } else {
+            out += c;
+        }
+    }
+    return out;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +222,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << json_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +234,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << json_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << json_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << json_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +246,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << json_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << json_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << json_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << json_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << json_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -257,7 +276,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << json_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -279,7 +298,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << json_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -289,7 +308,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << json_escape(event_names[i]) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -335,7 +354,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << json_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -345,10 +364,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << json_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << json_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << json_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -358,27 +377,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << json_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << json_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << json_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << json_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << json_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -388,7 +407,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << json_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -410,7 +429,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << json_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -418,7 +437,7 @@ private:
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << json_escape(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -429,7 +448,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << json_escape(name) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From 9068571b5f690bb56cd2577c556d06e8cddfe747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 07/60] fix: do not read missing samples of regions that were
 never exited

---
 rtl/src/instrumentation.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index e194545..4a471ef 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -106,8 +106,8 @@ struct DaisyRegion {
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -435,6 +435,13 @@ private:
         }
 
         entry << "\"metrics\":{";
+        // A region which was never exited has no samples yet
+        region.n.resize(event_names.size(), 0);
+        region.mean.resize(event_names.size(), 0.0);
+        region.variance.resize(event_names.size(), 0.0);
+        region.min.resize(event_names.size(), 0);
+        region.max.resize(event_names.size(), 0);
+
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
             entry << "\"" << json_escape(event_names[i]) << "\":{";
-- 
2.43.0


From a7b570543ed37cdfe017bad4bad447f41e0725b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 08/60] fix: report the runtime variance in squared
 microseconds

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 4a471ef..d6afffb 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -468,7 +468,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From 018a4e6227bd80abbb00f3f4157f98dffb01393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 09/60] fix: remove the synthetic terminal from the graph and
 the post-dominator tree

---
 sdfg/src/graph/graph.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..724e8b6 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -177,6 +177,14 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
     // Remove synthetic super-terminal if added
     if (modified) {
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
+
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
     }
 
     return pdom_tree;
-- 
2.43.0


From 01b504d620d43e04d1b8cd9669c77f21fb651f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 10/60] fix: do not pass through the source twice in
 all_simple_paths

---
 sdfg/src/graph/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 724e8b6..d9626c1 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -259,6 +259,9 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
 
     std::set<Vertex> visited;
     std::list<Edge> current_path;
+    if (src != dst) {
+        visited.insert(src);
+    }
 
     auto [eb, ee] = boost::out_edges(src, graph);
     auto edges = std::ranges::subrange(eb, ee);
-- 
2.43.0


From 46e07d8bf4dd5f0e08057784de6669114ac1b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 11/60] fix: ignore unreachable vertices when computing
 (post-)dominators

---
 sdfg/src/graph/graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index d9626c1..6fdf2ca 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,8 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    // Unreachable vertices keep a number outside of the valid range, s.t. they are ignored as predecessors
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +158,7 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From 4b48d26195c63a3fab7aa7190a80a1793bd724a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 12/60] fix: do not visit removed access nodes when cleaning up
 after propagation

---
 .../passes/dataflow/byte_reference_elimination.cpp   | 12 ++++++++----
 sdfg/src/passes/dataflow/reference_propagation.cpp   | 12 ++++++++----
 sdfg/src/passes/symbolic/symbol_propagation.cpp      | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/sdfg/src/passes/dataflow/byte_reference_elimination.cpp b/sdfg/src/passes/dataflow/byte_reference_elimination.cpp
index 8834d52..1fe7c52 100644
--- a/sdfg/src/passes/dataflow/byte_reference_elimination.cpp
+++ b/sdfg/src/passes/dataflow/byte_reference_elimination.cpp
@@ -164,11 +164,15 @@ bool ByteReferenceElimination::
     for (auto* node : replaced_nodes) {
         builder.merge_siblings(*node);
     }
+    // A replaced node may be dangling itself, so collect the graphs first
+    std::unordered_set<data_flow::DataFlowGraph*> replaced_graphs;
     for (auto* node : replaced_nodes) {
-        auto& graph = node->get_parent();
-        auto* block = static_cast<structured_control_flow::Block*>(graph.get_parent());
-        for (auto& dnode : graph.data_nodes()) {
-            if (graph.in_degree(*dnode) == 0 && graph.out_degree(*dnode) == 0) {
+        replaced_graphs.insert(&node->get_parent());
+    }
+    for (auto* graph : replaced_graphs) {
+        auto* block = static_cast<structured_control_flow::Block*>(graph->get_parent());
+        for (auto& dnode : graph->data_nodes()) {
+            if (graph->in_degree(*dnode) == 0 && graph->out_degree(*dnode) == 0) {
                 builder.remove_node(*block, *dnode);
             }
         }
diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index cecde30..a04cf9d 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -292,11 +292,15 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
     for (auto* node : replaced_nodes) {
         builder.merge_siblings(*node);
     }
+    // A replaced node may be dangling itself, so collect the graphs first
+    std::unordered_set<data_flow::DataFlowGraph*> replaced_graphs;
     for (auto* node : replaced_nodes) {
-        auto& graph = node->get_parent();
-        auto* block = static_cast<structured_control_flow::Block*>(graph.get_parent());
-        for (auto& dnode : graph.data_nodes()) {
-            if (graph.in_degree(*dnode) == 0 && graph.out_degree(*dnode) == 0) {
+        replaced_graphs.insert(&node->get_parent());
+    }
+    for (auto* graph : replaced_graphs) {
+        auto* block = static_cast<structured_control_flow::Block*>(graph->get_parent());
+        for (auto& dnode : graph->data_nodes()) {
+            if (graph->in_degree(*dnode) == 0 && graph->out_degree(*dnode) == 0) {
                 builder.remove_node(*block, *dnode);
             }
         }
diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index d6a90c5..62a2cd5 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -443,11 +443,15 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
     for (auto* node : replaced_nodes) {
         builder.merge_siblings(*node);
     }
+    // A replaced node may be dangling itself, so collect the graphs first
+    std::unordered_set<data_flow::DataFlowGraph*> replaced_graphs;
     for (auto* node : replaced_nodes) {
-        auto& graph = node->get_parent();
-        auto* block = static_cast<structured_control_flow::Block*>(graph.get_parent());
-        for (auto& dnode : graph.data_nodes()) {
-            if (graph.in_degree(*dnode) == 0 && graph.out_degree(*dnode) == 0) {
+        replaced_graphs.insert(&node->get_parent());
+    }
+    for (auto* graph : replaced_graphs) {
+        auto* block = static_cast<structured_control_flow::Block*>(graph->get_parent());
+        for (auto& dnode : graph->data_nodes()) {
+            if (graph->in_degree(*dnode) == 0 && graph->out_degree(*dnode) == 0) {
                 builder.remove_node(*block, *dnode);
             }
         }
-- 
2.43.0


From 79ed276e4a49ee0e6eca36f85462933324936a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 13/60] fix: keep the assignments of a nested sequence's
 transition in SequenceFusion

---
 sdfg/src/passes/structured_control_flow/sequence_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
index f142965..46e3f74 100644
--- a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
@@ -27,7 +27,8 @@ bool SequenceFusion::run_pass(builder::StructuredSDFGBuilder& builder, analysis:
             while (i < seq->size()) {
                 auto child = seq->at(i);
                 auto subseq = dynamic_cast<structured_control_flow::Sequence*>(&child.first);
-                if (!subseq) {
+                if (!subseq || !child.second.empty()) {
+                    // Assignments on the transition must not be lost
                     i++;
                     continue;
                 }
-- 
2.43.0


From 315136a48e784a581cc6bfed370e8101f8166aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 14/60] fix: do not visit merged access nodes in TaskletFusion

---
 sdfg/src/passes/dataflow/tasklet_fusion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/dataflow/tasklet_fusion.cpp b/sdfg/src/passes/dataflow/tasklet_fusion.cpp
index 8c89aef..54b7aee 100644
--- a/sdfg/src/passes/dataflow/tasklet_fusion.cpp
+++ b/sdfg/src/passes/dataflow/tasklet_fusion.cpp
@@ -40,7 +40,13 @@ bool TaskletFusion::accept(structured_control_flow::Block& block) {
     auto& dfg = block.dataflow();
 
     // Fuse "input" assignments:
+    std::unordered_set<data_flow::AccessNode*> removed_nodes;
     for (auto* access_node : dfg.data_nodes()) {
+        // Skip nodes that have been merged into another node before
+        if (removed_nodes.contains(access_node)) {
+            continue;
+        }
+
         // Require exactly one in edge and at leat one out edge
         if (dfg.in_degree(*access_node) != 1 || dfg.out_degree(*access_node) == 0) {
             continue;
@@ -119,6 +125,7 @@ bool TaskletFusion::accept(structured_control_flow::Block& block) {
                         );
                     if (dfg.in_degree(*other_access_node) == 0 && dfg.out_degree(*other_access_node) == 0) {
                         this->builder_.remove_node(block, *other_access_node);
+                        removed_nodes.insert(other_access_node);
                     }
                 }
             }
-- 
2.43.0


From 79683bd5c18b0982eba2ad5342ac0b51763beec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 15/60] fix: do not compare strides of a nest without strided
 accesses

---
 opt/src/passes/normalization/stride_minimization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opt/src/passes/normalization/stride_minimization.cpp b/opt/src/passes/normalization/stride_minimization.cpp
index e06c982..4d6460c 100644
--- a/opt/src/passes/normalization/stride_minimization.cpp
+++ b/opt/src/passes/normalization/stride_minimization.cpp
@@ -147,6 +147,11 @@ std::pair<bool, std::vector<std::string>> StrideMinimization::can_be_applied(
         }
     }
 
+    // Without strided accesses, all permutations are equivalent
+    if (subsets.empty()) {
+        return {false, {}};
+    }
+
     // Test all permutations (must start from a sorted sequence)
     std::vector<std::string> current = permutation;
     std::sort(current.begin(), current.end());
-- 
2.43.0


From 796c79bc8e3b4442d7e64d1dbed03588a7893560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 16/60] fix: keep a single-iteration map whose loop variable is
 read by an access node

---
 .../dead_cfg_elimination.cpp                  | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 4aa60d7..2000d8c 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -9,6 +9,34 @@
 namespace sdfg {
 namespace passes {
 
+// Access nodes can be renamed, but cannot take an arbitrary expression
+static bool has_access_node(structured_control_flow::ControlFlowNode& node, const std::string& container) {
+    if (auto block = dynamic_cast<structured_control_flow::Block*>(&node)) {
+        for (auto* access_node : block->dataflow().data_nodes()) {
+            if (access_node->data() == container) {
+                return true;
+            }
+        }
+    } else if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < sequence->size(); i++) {
+            if (has_access_node(sequence->at(i).first, container)) {
+                return true;
+            }
+        }
+    } else if (auto if_else = dynamic_cast<structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < if_else->size(); i++) {
+            if (has_access_node(if_else->at(i).first, container)) {
+                return true;
+            }
+        }
+    } else if (auto while_loop = dynamic_cast<structured_control_flow::While*>(&node)) {
+        return has_access_node(while_loop->root(), container);
+    } else if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(&node)) {
+        return has_access_node(loop->root(), container);
+    }
+    return false;
+}
+
 bool DeadCFGElimination::is_dead(const structured_control_flow::ControlFlowNode& node) {
     if (auto block_stmt = dynamic_cast<const structured_control_flow::Block*>(&node)) {
         return (block_stmt->dataflow().nodes().size() == 0);
@@ -43,7 +71,12 @@ bool DeadCFGElimination::is_trivial(structured_control_flow::Map* loop) {
 
     // Check if bound - init == 1
     auto trip_count = symbolic::sub(bound, init);
-    return symbolic::eq(trip_count, symbolic::one());
+    if (!symbolic::eq(trip_count, symbolic::one())) {
+        return false;
+    }
+
+    // Access nodes of the indvar must be replaceable by the init
+    return SymEngine::is_a<SymEngine::Symbol>(*init) || !has_access_node(loop->root(), loop->indvar()->get_name());
 }
 
 DeadCFGElimination::DeadCFGElimination()
-- 
2.43.0


From 6f95f72e1a3ea33c4823c9e765c0458b3315ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 17/60] fix: do not lose definitions and uncovered reads in the
 data dependency analysis

---
 .../sdfg/analysis/data_dependency_analysis.h  |  21 +-
 .../src/analysis/data_dependency_analysis.cpp | 522 ++++++++----------
 2 files changed, 264 insertions(+), 279 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 246a90e..ec1b569 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -44,6 +44,9 @@ private:
 
     std::list<std::unique_ptr<User>> undefined_users_;
 
+    // Undefined users after which a read may see an older value
+    std::unordered_set<User*> older_value_users_;
+
     bool loop_depends(
         User& previous,
         User& current,
@@ -51,14 +54,28 @@ private:
         structured_control_flow::StructuredLoop& loop
     );
 
-    bool supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    // Every location of inner is accessed by outer
+    bool contains(analysis::AnalysisManager& analysis_manager, User& outer, User& inner);
 
-    bool intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    // The read cannot see a value older than the definition
+    bool covers(analysis::AnalysisManager& analysis_manager, User& definition, User& read);
 
     bool closes(analysis::AnalysisManager& analysis_manager, User& previous, User& current, bool requires_dominance);
 
     bool depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current);
 
+    void visit_read(
+        analysis::AnalysisManager& analysis_manager,
+        User& read,
+        std::unordered_set<User*>& undefined,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
+
+    void mark_partially_undefined(
+        const std::unordered_map<User*, std::unordered_set<User*>>& conditional_definitions,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
+
 public:
     DataDependencyAnalysis(StructuredSDFG& sdfg, bool detailed = false);
 
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f77381c..0fe7c52 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -8,6 +8,7 @@
 
 #include "sdfg/analysis/analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/structured_sdfg.h"
 #include "sdfg/symbolic/maps.h"
 #include "sdfg/symbolic/sets.h"
@@ -28,6 +29,7 @@ DataDependencyAnalysis::DataDependencyAnalysis(StructuredSDFG& sdfg, structured_
 void DataDependencyAnalysis::run(analysis::AnalysisManager& analysis_manager) {
     results_.clear();
     undefined_users_.clear();
+    older_value_users_.clear();
     loop_carried_dependencies_.clear();
 
     std::unordered_set<User*> undefined;
@@ -50,6 +52,66 @@ void DataDependencyAnalysis::run(analysis::AnalysisManager& analysis_manager) {
 
 /****** Visitor API ******/
 
+void DataDependencyAnalysis::visit_read(
+    analysis::AnalysisManager& analysis_manager,
+    User& read,
+    std::unordered_set<User*>& undefined,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    // Assign to open definitions
+    bool covered = false;
+    bool found_undefined_user = false;
+    for (auto& entry : open_definitions) {
+        if (!this->depends(analysis_manager, *entry.first, read)) {
+            continue;
+        }
+        entry.second.insert(&read);
+        if (this->is_undefined_user(*entry.first)) {
+            found_undefined_user |= this->older_value_users_.contains(entry.first);
+        } else if (!covered) {
+            covered = this->covers(analysis_manager, *entry.first, read);
+        }
+    }
+    // If the read may see a value from before, mark as undefined
+    if (!covered || found_undefined_user) {
+        undefined.insert(&read);
+    }
+}
+
+void DataDependencyAnalysis::mark_partially_undefined(
+    const std::unordered_map<User*, std::unordered_set<User*>>& conditional_definitions,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    std::unordered_set<std::string> containers;
+    for (auto& entry : conditional_definitions) {
+        // Other containers are checked for coverage
+        auto& container = entry.first->container();
+        if (sdfg_.type(container).type_id() != types::TypeID::Scalar || !containers.insert(container).second) {
+            continue;
+        }
+        // Unless fully defined by an earlier definition, reads may see an older value
+        bool defined = false;
+        bool undefined = false;
+        for (auto& definition : open_definitions) {
+            if (definition.first->container() != container) {
+                continue;
+            }
+            if (!this->is_undefined_user(*definition.first)) {
+                defined = true;
+            } else if (this->older_value_users_.contains(definition.first)) {
+                undefined = true;
+            }
+        }
+        auto artificial_user =
+            std::make_unique<User>(boost::graph_traits<graph::Graph>::null_vertex(), container, nullptr, Use::WRITE);
+        this->undefined_users_.push_back(std::move(artificial_user));
+        open_definitions.insert({this->undefined_users_.back().get(), {}});
+        if (undefined || !defined) {
+            this->older_value_users_.insert(this->undefined_users_.back().get());
+        }
+    }
+}
+
 void DataDependencyAnalysis::visit_block(
     analysis::AnalysisManager& analysis_manager,
     structured_control_flow::Block& block,
@@ -86,7 +148,9 @@ void DataDependencyAnalysis::visit_block(
                         // Close open definitions if possible
                         std::unordered_map<User*, std::unordered_set<User*>> to_close;
                         for (auto& user : open_definitions) {
-                            if (this->closes(analysis_manager, *user.first, *current_user, false)) {
+                            if (this->closes(
+                                    analysis_manager, *user.first, *current_user, !this->is_undefined_user(*user.first)
+                                )) {
                                 to_close.insert(user);
                             }
                         }
@@ -113,19 +177,7 @@ void DataDependencyAnalysis::visit_block(
                         auto current_user = users.get_user(access_node->data(), access_node, use);
 
                         // Assign to open definitions
-                        bool found_user = false;
-                        bool found_undefined_user = false;
-                        for (auto& user : open_definitions) {
-                            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                                user.second.insert(current_user);
-                                found_user = true;
-                                found_undefined_user = this->is_undefined_user(*user.first);
-                            }
-                        }
-                        // If no definition found or undefined user found, mark as undefined
-                        if (!found_user || found_undefined_user) {
-                            undefined.insert(current_user);
-                        }
+                        this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
                     }
                 }
             }
@@ -134,19 +186,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(symbol->get_name(), library_node, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*current_user);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
-                    undefined.insert(current_user);
-                }
+                this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
 
@@ -161,19 +201,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(atom, &oedge, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
-                    undefined.insert(current_user);
-                }
+                this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
     }
@@ -193,19 +221,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined.insert(current_user);
-        }
+        this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
     }
 
     // Init - Write
@@ -240,19 +256,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined.insert(current_user);
-        }
+        this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
     }
 
     std::unordered_map<User*, std::unordered_set<User*>> open_definitions_for;
@@ -267,23 +271,10 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions_for) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined_for.insert(current_user);
-        }
+        this->visit_read(analysis_manager, *current_user, undefined_for, open_definitions_for);
     }
 
     // Merge for with outside
-    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
 
     // Closed definitions are simply merged
     for (auto& entry : closed_definitions_for) {
@@ -292,43 +283,17 @@ void DataDependencyAnalysis::visit_for(
 
     // Undefined reads are matched or forwarded
     for (auto open_read : undefined_for) {
-        // Simple check: no match or undefined user
-        std::unordered_set<User*> frontier;
-        bool found = false;
-        bool found_undefined_user = false;
-        for (auto& entry : open_definitions) {
-            if (intersects(*entry.first, *open_read, analysis_manager)) {
-                entry.second.insert(open_read);
-                found = true;
-                found_undefined_user = this->is_undefined_user(*entry.first);
-                frontier.insert(entry.first);
-            }
-        }
-        if (!found || found_undefined_user) {
-            undefined.insert(open_read);
-            continue;
-        }
-
-        // Users found, check if they fully cover the read
-        bool covered = false;
-        for (auto& entry : frontier) {
-            if (!dominance_analysis.dominates(*entry, *open_read)) {
-                continue;
-            }
-            bool covers = supersedes_restrictive(*open_read, *entry, analysis_manager);
-            if (covers) {
-                covered = true;
-                break;
-            }
-        }
-        if (!covered) {
-            undefined.insert(open_read);
-        }
+        this->visit_read(analysis_manager, *open_read, undefined, open_definitions);
     }
 
     // Open definitions may close outside open definitions after loop
+    // Scalars are only overwritten for sure, if the loop is executed at least once
+    bool executed = symbolic::is_true(symbolic::subs(for_loop.condition(), for_loop.indvar(), for_loop.init()));
     std::unordered_set<User*> to_close;
     for (auto& previous : open_definitions) {
+        if (!executed && sdfg_.type(previous.first->container()).type_id() == types::TypeID::Scalar) {
+            continue;
+        }
         for (auto& user : open_definitions_for) {
             if (this->closes(analysis_manager, *previous.first, *user.first, true)) {
                 to_close.insert(previous.first);
@@ -399,6 +364,9 @@ void DataDependencyAnalysis::visit_for(
     }
 
     // Add open definitions from for to outside
+    if (!executed) {
+        this->mark_partially_undefined(open_definitions_for, open_definitions);
+    }
     for (auto& entry : open_definitions_for) {
         open_definitions.insert(entry);
     }
@@ -419,19 +387,7 @@ void DataDependencyAnalysis::visit_if_else(
         for (auto atom : symbolic::atoms(child)) {
             auto current_user = users.get_user(atom->get_name(), &if_else, Use::READ);
 
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *current_user)) {
-                    user.second.insert(current_user);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
-                undefined.insert(current_user);
-            }
+            this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
         }
     }
 
@@ -452,19 +408,7 @@ void DataDependencyAnalysis::visit_if_else(
     // merge partial open reads
     for (size_t i = 0; i < if_else.size(); i++) {
         for (auto& entry : undefined_branches.at(i)) {
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *entry)) {
-                    user.second.insert(entry);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
-                undefined.insert(entry);
-            }
+            this->visit_read(analysis_manager, *entry, undefined, open_definitions);
         }
     }
 
@@ -477,35 +421,32 @@ void DataDependencyAnalysis::visit_if_else(
 
     // Close open reads_after_writes for complete branches
     if (if_else.is_complete()) {
+        // A definition is closed, if every branch overwrites it for sure
+        auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
         std::unordered_map<User*, std::unordered_set<User*>> to_close;
-        std::unordered_set<std::string> candidates;
-        std::unordered_set<std::string> candidates_tmp;
-
-        /* Complete close open reads_after_writes
-        1. get candidates from first iteration
-        2. iterate over all branches and prune candidates
-        3. find prior writes for remaining candidates
-        4. close open reads_after_writes for all candidates
-        */
-        for (auto& entry : open_definitions_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-        for (auto& entry : closed_definitionss_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-
-        for (size_t i = 1; i < if_else.size(); i++) {
-            for (auto& entry : open_definitions_branches.at(i)) {
-                if (candidates.find(entry.first->container()) != candidates.end()) {
-                    candidates_tmp.insert(entry.first->container());
+        for (auto& entry : open_definitions) {
+            bool overwritten = !this->is_undefined_user(*entry.first);
+            for (size_t i = 0; overwritten && i < if_else.size(); i++) {
+                overwritten = false;
+                for (auto& definition : open_definitions_branches.at(i)) {
+                    if (this->is_undefined_user(*definition.first) ||
+                        !this->closes(analysis_manager, *entry.first, *definition.first, false)) {
+                        continue;
+                    }
+                    // Only straight-line code between the definition and the branch
+                    const structured_control_flow::ControlFlowNode* scope = Users::scope(definition.first);
+                    while (scope && scope != &if_else.at(i).first &&
+                           (dynamic_cast<const structured_control_flow::Block*>(scope) ||
+                            dynamic_cast<const structured_control_flow::Sequence*>(scope))) {
+                        scope = scope_analysis.parent_scope(scope);
+                    }
+                    if (scope == &if_else.at(i).first) {
+                        overwritten = true;
+                        break;
+                    }
                 }
             }
-            candidates.swap(candidates_tmp);
-            candidates_tmp.clear();
-        }
-
-        for (auto& entry : open_definitions) {
-            if (candidates.find(entry.first->container()) != candidates.end()) {
+            if (overwritten) {
                 to_close.insert(entry);
             }
         }
@@ -527,13 +468,7 @@ void DataDependencyAnalysis::visit_if_else(
         // Hence, we can mark the read as (partially) undefined.
 
         for (auto& branch : open_definitions_branches) {
-            for (auto& open_definition : branch) {
-                auto write = open_definition.first;
-                auto artificial_user = std::make_unique<
-                    User>(boost::graph_traits<graph::Graph>::null_vertex(), write->container(), nullptr, Use::WRITE);
-                this->undefined_users_.push_back(std::move(artificial_user));
-                open_definitions.insert({this->undefined_users_.back().get(), {}});
-            }
+            this->mark_partially_undefined(branch, open_definitions);
         }
     }
 
@@ -572,19 +507,11 @@ void DataDependencyAnalysis::visit_while(
         }
 
         // Connect to outside
-        bool found = false;
-        for (auto& entry : open_definitions) {
-            if (entry.first->container() == open_read->container()) {
-                entry.second.insert(open_read);
-                found = true;
-            }
-        }
-        if (!found) {
-            undefined.insert(open_read);
-        }
+        this->visit_read(analysis_manager, *open_read, undefined, open_definitions);
     }
 
     // Add open definitions from while to outside
+    this->mark_partially_undefined(open_definitions_while, open_definitions);
     for (auto& entry : open_definitions_while) {
         open_definitions.insert(entry);
     }
@@ -654,16 +581,7 @@ void DataDependencyAnalysis::visit_sequence(
                 }
                 auto current_user = users.get_user(atom->get_name(), &child.second, Use::READ);
 
-                bool found = false;
-                for (auto& user : open_definitions) {
-                    if (user.first->container() == atom->get_name()) {
-                        user.second.insert(current_user);
-                        found = true;
-                    }
-                }
-                if (!found) {
-                    undefined.insert(current_user);
-                }
+                this->visit_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
 
@@ -673,7 +591,9 @@ void DataDependencyAnalysis::visit_sequence(
 
             std::unordered_set<User*> to_close;
             for (auto& user : open_definitions) {
-                if (this->closes(analysis_manager, *user.first, *current_user, true)) {
+                if (this->closes(
+                        analysis_manager, *user.first, *current_user, !this->is_undefined_user(*user.first)
+                    )) {
                     to_close.insert(user.first);
                 }
             }
@@ -750,88 +670,142 @@ bool DataDependencyAnalysis::loop_depends(
     return false;
 }
 
-bool DataDependencyAnalysis::
-    supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
-        return false;
-    }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
-        return true;
-    }
-
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
+bool DataDependencyAnalysis::contains(analysis::AnalysisManager& analysis_manager, User& outer, User& inner) {
+    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    auto outer_scope = Users::scope(&outer);
+    auto inner_scope = Users::scope(&inner);
+    auto& outer_assumptions = assumptions_analysis.get(*outer_scope, true);
+    auto& inner_assumptions = assumptions_analysis.get(*inner_scope, true);
+
+    // Determine the innermost common scope and the loops between outer and the common scope
+    std::unordered_set<structured_control_flow::ControlFlowNode*> inner_ancestors = {inner_scope};
+    for (auto& ancestor : scope_analysis.ancestor_scopes(inner_scope)) {
+        inner_ancestors.insert(ancestor);
+    }
+    std::vector<structured_control_flow::StructuredLoop*> outer_loops;
+    structured_control_flow::ControlFlowNode* common_scope = outer_scope;
+    while (common_scope && !inner_ancestors.contains(common_scope)) {
+        if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(common_scope)) {
+            outer_loops.push_back(loop);
+        }
+        common_scope = scope_analysis.parent_scope(common_scope);
+    }
+    if (!common_scope) {
         return false;
     }
-
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    // Check if previous subset is subset of any current subset
-    for (auto& previous_subset : previous_subsets) {
-        bool found = false;
-        for (auto& current_subset : current_subsets) {
-            if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
-                found = true;
-                break;
-            }
+    auto& common_assumptions = assumptions_analysis.get(*common_scope, true);
+    auto is_fixed = [&](const symbolic::Symbol& sym) {
+        if (assumptions_analysis.is_parameter(sym)) {
+            return true;
         }
-        if (!found) {
+        auto entry = common_assumptions.find(sym);
+        return entry != common_assumptions.end() && entry->second.constant();
+    };
+
+    auto contains_subset = [&](const data_flow::Subset& outer_subset, const data_flow::Subset& inner_subset) {
+        // Unknown extent
+        if (outer_subset.empty() || outer_subset.size() != inner_subset.size()) {
             return false;
         }
-    }
-
-    return true;
-}
 
-bool DataDependencyAnalysis::intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
-        return false;
-    }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
-        return true;
-    }
+        symbolic::SymbolSet syms;
+        for (auto& dim : outer_subset) {
+            for (auto& sym : symbolic::atoms(dim)) {
+                syms.insert(sym);
+            }
+        }
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
-        return true;
-    }
+        // Outer must be accessed in every execution of the common scope
+        for (auto& loop : outer_loops) {
+            if (!syms.contains(loop->indvar())) {
+                return false;
+            }
+        }
 
-    if (!this->detailed_) {
-        return true;
-    }
+        // Outer may only range over the iterations of its loops
+        symbolic::SymbolSet fixed;
+        bool all_fixed = true;
+        for (auto& sym : syms) {
+            if (is_fixed(sym)) {
+                fixed.insert(sym);
+                continue;
+            }
+            all_fixed = false;
+            bool found = false;
+            for (auto& loop : outer_loops) {
+                if (symbolic::eq(loop->indvar(), sym)) {
+                    found = true;
+                    break;
+                }
+            }
+            if (!found || outer_assumptions.find(sym) == outer_assumptions.end()) {
+                return false;
+            }
+            auto& assumption = outer_assumptions.at(sym);
+            if (assumption.tight_lower_bound().is_null() || assumption.tight_upper_bound().is_null()) {
+                return false;
+            }
+            for (auto& bound : {assumption.tight_lower_bound(), assumption.tight_upper_bound()}) {
+                for (auto& bound_sym : symbolic::atoms(bound)) {
+                    if (is_fixed(bound_sym)) {
+                        fixed.insert(bound_sym);
+                    } else if (!syms.contains(bound_sym)) {
+                        return false;
+                    }
+                }
+            }
+        }
 
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
+        // Same location
+        if (all_fixed) {
+            bool equal = true;
+            for (size_t i = 0; i < outer_subset.size(); i++) {
+                if (!symbolic::eq(outer_subset[i], inner_subset[i])) {
+                    equal = false;
+                    break;
+                }
+            }
+            if (equal) {
+                return true;
+            }
+        }
 
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
+        // Symbols with the same value for both sides must not be mixed up
+        for (auto& dim : inner_subset) {
+            for (auto& sym : symbolic::atoms(dim)) {
+                if (is_fixed(sym)) {
+                    fixed.insert(sym);
+                }
+            }
+        }
+        auto outer_extended = outer_subset;
+        auto inner_extended = inner_subset;
+        for (auto& sym : fixed) {
+            if (outer_assumptions.find(sym) == outer_assumptions.end() ||
+                inner_assumptions.find(sym) == inner_assumptions.end()) {
+                return false;
+            }
+            outer_extended.push_back(sym);
+            inner_extended.push_back(sym);
+        }
+        return symbolic::is_subset(inner_extended, outer_extended, inner_assumptions, outer_assumptions);
+    };
 
-    // Check if any current subset intersects with any previous subset
-    bool found = false;
-    for (auto& current_subset : current_subsets) {
-        for (auto& previous_subset : previous_subsets) {
-            if (!symbolic::is_disjoint(current_subset, previous_subset, current_assumptions, previous_assumptions)) {
+    for (auto& inner_subset : inner.subsets()) {
+        bool found = false;
+        for (auto& outer_subset : outer.subsets()) {
+            if (contains_subset(outer_subset, inner_subset)) {
                 found = true;
                 break;
             }
         }
-        if (found) {
-            break;
+        if (!found) {
+            return false;
         }
     }
 
-    return found;
+    return true;
 }
 
 bool DataDependencyAnalysis::
@@ -840,9 +814,12 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
+    if (this->is_undefined_user(current)) {
         return false;
     }
+    if (this->is_undefined_user(previous)) {
+        return !requires_dominance && sdfg_.type(previous.container()).type_id() == types::TypeID::Scalar;
+    }
 
     // Check dominance
     if (requires_dominance) {
@@ -862,30 +839,21 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    // Collect memlets and assumptions
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto current_scope = Users::scope(&current);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
+    return this->contains(analysis_manager, current, previous);
+}
 
-    auto& previous_memlets = previous.subsets();
-    auto& current_memlets = current.subsets();
+bool DataDependencyAnalysis::covers(analysis::AnalysisManager& analysis_manager, User& definition, User& read) {
+    auto& type = sdfg_.type(definition.container());
+    if (type.type_id() == types::TypeID::Scalar) {
+        return true;
+    }
 
-    for (auto& subset_ : previous_memlets) {
-        bool overwritten = false;
-        for (auto& subset : current_memlets) {
-            if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
-                overwritten = true;
-                break;
-            }
-        }
-        if (!overwritten) {
-            return false;
-        }
+    if (!this->detailed_) {
+        return false;
     }
 
-    return true;
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    return dominance_analysis.dominates(definition, read) && this->contains(analysis_manager, definition, read);
 }
 
 bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current) {
-- 
2.43.0


From a4f07db9c1149bf2a8864c96b56a65d5141eec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 18/60] fix: do not assume bounds and equal values of symbols
 that do not hold in the dependency tests

---
 sdfg/src/analysis/assumptions_analysis.cpp    | 32 +++++++++++++++++--
 .../src/analysis/data_dependency_analysis.cpp | 25 ++++++---------
 sdfg/src/symbolic/maps.cpp                    |  4 +--
 sdfg/src/symbolic/utils.cpp                   | 20 ++++++++++++
 4 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 8a63fb3..b8b5a24 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -21,6 +21,10 @@ symbolic::Expression AssumptionsAnalysis::cnf_to_upper_bound(const symbolic::CNF
     std::vector<symbolic::Expression> candidates;
 
     for (const auto& clause : cnf) {
+        // Only one literal of a clause must hold
+        if (clause.size() != 1) {
+            continue;
+        }
         for (const auto& literal : clause) {
             // Comparison: indvar < expr
             if (SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
@@ -284,9 +288,31 @@ void AssumptionsAnalysis::traverse_structured_loop(
     }
 
     // Assumption: any ub symbol is at least init
-    for (auto& sym : symbolic::atoms(ub)) {
-        body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
-        body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+    symbolic::ExpressionSet ub_args;
+    if (SymEngine::is_a<SymEngine::Min>(*ub)) {
+        for (auto& arg : SymEngine::rcp_static_cast<const SymEngine::Min>(ub)->get_args()) {
+            ub_args.insert(arg);
+        }
+    } else {
+        ub_args.insert(ub);
+    }
+    for (auto& arg : ub_args) {
+        for (auto& sym : symbolic::atoms(arg)) {
+            // sym + offset >= init
+            auto offset = symbolic::expand(symbolic::sub(arg, sym));
+            if (symbolic::uses(offset, sym)) {
+                continue;
+            }
+            auto lb = symbolic::expand(symbolic::sub(init, offset));
+            if (symbolic::uses(lb, sym)) {
+                continue;
+            }
+            if (SymEngine::is_a<SymEngine::Integer>(*offset) && symbolic::is_true(symbolic::Le(offset, symbolic::zero()))) {
+                lb = symbolic::add(init, symbolic::one());
+            }
+            body_assumptions[sym].add_lower_bound(lb);
+            body_assumptions[sym].lower_bound_deprecated(lb);
+        }
     }
 
     this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index 0fe7c52..f0777a9 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -637,21 +637,16 @@ bool DataDependencyAnalysis::loop_depends(
     // We're using the assumptions from the blocks, where the memory accesses occur
     // However, we need to revert constantness assumptions from the perspective of the loop
     // for which we're checking loop-carried dependencies
-    auto& loop_analysis = analysis_manager.get<analysis::LoopAnalysis>();
-    if (previous_assumptions.find(loop.indvar()) != previous_assumptions.end()) {
-        previous_assumptions.at(loop.indvar()).constant(false);
-    }
-    if (current_assumptions.find(loop.indvar()) != current_assumptions.end()) {
-        current_assumptions.at(loop.indvar()).constant(false);
-    }
-    for (auto& inner_loop : loop_analysis.descendants(&loop)) {
-        if (auto structured_loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(inner_loop)) {
-            auto indvar = structured_loop->indvar();
-            if (previous_assumptions.find(indvar) != previous_assumptions.end()) {
-                previous_assumptions.at(indvar).constant(false);
-            }
-            if (current_assumptions.find(indvar) != current_assumptions.end()) {
-                current_assumptions.at(indvar).constant(false);
+    auto& loop_assumptions = assumptions_analysis.get(loop.root(), true);
+    for (auto* assumptions : {&previous_assumptions, &current_assumptions}) {
+        for (auto& entry : *assumptions) {
+            if (symbolic::eq(entry.first, loop.indvar())) {
+                entry.second.constant(false);
+            } else if (!assumptions_analysis.is_parameter(entry.first)) {
+                auto loop_entry = loop_assumptions.find(entry.first);
+                if (loop_entry == loop_assumptions.end() || !loop_entry->second.constant()) {
+                    entry.second.constant(false);
+                }
             }
         }
     }
diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index cccbccb..395f4da 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -151,7 +151,7 @@ bool is_disjoint_isl(
             continue;
         }
 
-        bool disjoint = isl_map_is_empty(alias_pairs);
+        bool disjoint = isl_map_is_empty(alias_pairs) == isl_bool_true;
         isl_map_free(alias_pairs);
         isl_ctx_free(ctx);
         if (disjoint) {
@@ -211,7 +211,7 @@ bool is_disjoint_isl(
         return false;
     }
 
-    bool disjoint = isl_map_is_empty(alias_pairs);
+    bool disjoint = isl_map_is_empty(alias_pairs) == isl_bool_true;
     isl_map_free(alias_pairs);
     isl_ctx_free(ctx);
 
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..ac71c07 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -252,6 +252,26 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     seen.clear();
     auto constraints_syms_2 = generate_constraints(syms, assums2, seen);
 
+    // Symbols of the constraints may also differ between both maps
+    for (auto* constraints_syms : {&constraints_syms_1, &constraints_syms_2}) {
+        for (auto& con : *constraints_syms) {
+            for (auto& con_sym : symbolic::atoms(con)) {
+                if (dimensions_syms.find(con_sym) != dimensions_syms.end() ||
+                    parameters_syms.find(con_sym) != parameters_syms.end()) {
+                    continue;
+                }
+                if (assums1.find(con_sym) == assums1.end() || assums2.find(con_sym) == assums2.end()) {
+                    continue;
+                }
+                if (con_sym->get_name() == indvar->get_name() || !assums1.at(con_sym).constant() ||
+                    !assums2.at(con_sym).constant()) {
+                    dimensions.push_back(con_sym->get_name());
+                    dimensions_syms.insert(con_sym);
+                }
+            }
+        }
+    }
+
     // Extend parameters with additional symbols from constraints
     for (auto& con : constraints_syms_1) {
         auto con_syms = symbolic::atoms(con);
-- 
2.43.0


From 196b67246ca65db031e1d3a07d1881e6eadc3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 19/60] fix: do not exclude the first iteration for symbols
 that are loop variables in the assumptions

---
 sdfg/src/analysis/assumptions_analysis.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index b8b5a24..f119a04 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -307,7 +307,10 @@ void AssumptionsAnalysis::traverse_structured_loop(
             if (symbolic::uses(lb, sym)) {
                 continue;
             }
-            if (SymEngine::is_a<SymEngine::Integer>(*offset) && symbolic::is_true(symbolic::Le(offset, symbolic::zero()))) {
+            auto outer = outer_assumptions.find(sym);
+            bool is_outer_indvar = outer != outer_assumptions.end() && !outer->second.map().is_null();
+            if (!is_outer_indvar && SymEngine::is_a<SymEngine::Integer>(*offset) &&
+                symbolic::is_true(symbolic::Le(offset, symbolic::zero()))) {
                 lb = symbolic::add(init, symbolic::one());
             }
             body_assumptions[sym].add_lower_bound(lb);
-- 
2.43.0


From 413aaaaf8c0a51eeb5949859acafd54f47ee4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 20/60] fix: definitions in loops with jumps and in branches do
 not dominate in the data dependency analysis

---
 .../src/analysis/data_dependency_analysis.cpp | 81 +++++++++++++++----
 1 file changed, 66 insertions(+), 15 deletions(-)

diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f0777a9..8c20d41 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -421,26 +421,34 @@ void DataDependencyAnalysis::visit_if_else(
 
     // Close open reads_after_writes for complete branches
     if (if_else.is_complete()) {
-        // A definition is closed, if every branch overwrites it for sure
+        // A definition is overwritten for sure by straight-line code of the branch
         auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+        std::vector<std::unordered_set<User*>> unconditional(if_else.size());
+        for (size_t i = 0; i < if_else.size(); i++) {
+            for (auto& definition : open_definitions_branches.at(i)) {
+                if (this->is_undefined_user(*definition.first)) {
+                    continue;
+                }
+                const structured_control_flow::ControlFlowNode* scope = Users::scope(definition.first);
+                while (scope && scope != &if_else.at(i).first &&
+                       (dynamic_cast<const structured_control_flow::Block*>(scope) ||
+                        dynamic_cast<const structured_control_flow::Sequence*>(scope))) {
+                    scope = scope_analysis.parent_scope(scope);
+                }
+                if (scope == &if_else.at(i).first) {
+                    unconditional.at(i).insert(definition.first);
+                }
+            }
+        }
+
+        // A definition is closed, if every branch overwrites it for sure
         std::unordered_map<User*, std::unordered_set<User*>> to_close;
         for (auto& entry : open_definitions) {
             bool overwritten = !this->is_undefined_user(*entry.first);
             for (size_t i = 0; overwritten && i < if_else.size(); i++) {
                 overwritten = false;
-                for (auto& definition : open_definitions_branches.at(i)) {
-                    if (this->is_undefined_user(*definition.first) ||
-                        !this->closes(analysis_manager, *entry.first, *definition.first, false)) {
-                        continue;
-                    }
-                    // Only straight-line code between the definition and the branch
-                    const structured_control_flow::ControlFlowNode* scope = Users::scope(definition.first);
-                    while (scope && scope != &if_else.at(i).first &&
-                           (dynamic_cast<const structured_control_flow::Block*>(scope) ||
-                            dynamic_cast<const structured_control_flow::Sequence*>(scope))) {
-                        scope = scope_analysis.parent_scope(scope);
-                    }
-                    if (scope == &if_else.at(i).first) {
+                for (auto& definition : unconditional.at(i)) {
+                    if (this->closes(analysis_manager, *entry.first, *definition, false)) {
                         overwritten = true;
                         break;
                     }
@@ -451,6 +459,23 @@ void DataDependencyAnalysis::visit_if_else(
             }
         }
 
+        // Containers defined by some branches only are partially undefined
+        std::unordered_map<User*, std::unordered_set<User*>> conditional_definitions;
+        for (auto& branch : open_definitions_branches) {
+            for (auto& entry : branch) {
+                bool defined = true;
+                for (auto& definitions : unconditional) {
+                    defined &= std::any_of(definitions.begin(), definitions.end(), [&](User* definition) {
+                        return definition->container() == entry.first->container();
+                    });
+                }
+                if (!defined) {
+                    conditional_definitions.insert(entry);
+                }
+            }
+        }
+        this->mark_partially_undefined(conditional_definitions, open_definitions);
+
         for (auto& entry : to_close) {
             open_definitions.erase(entry.first);
             closed_definitions.insert(entry);
@@ -480,6 +505,26 @@ void DataDependencyAnalysis::visit_if_else(
     }
 }
 
+static bool contains_jump(structured_control_flow::ControlFlowNode& node) {
+    if (dynamic_cast<structured_control_flow::Break*>(&node) || dynamic_cast<structured_control_flow::Continue*>(&node)) {
+        return true;
+    }
+    if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < sequence->size(); i++) {
+            if (contains_jump(sequence->at(i).first)) {
+                return true;
+            }
+        }
+    } else if (auto if_else = dynamic_cast<structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < if_else->size(); i++) {
+            if (contains_jump(if_else->at(i).first)) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 void DataDependencyAnalysis::visit_while(
     analysis::AnalysisManager& analysis_manager,
     structured_control_flow::While& while_loop,
@@ -494,8 +539,14 @@ void DataDependencyAnalysis::visit_while(
     visit_sequence(analysis_manager, while_loop.root(), undefined_while, open_definitions_while, closed_definitions_while);
 
     // Scope-local closed definitions
+    // Over-Approximation: A jump may leave the body before a definition is closed
+    bool jumps = contains_jump(while_loop.root());
     for (auto& entry : closed_definitions_while) {
-        closed_definitions.insert(entry);
+        if (jumps && !this->is_undefined_user(*entry.first)) {
+            open_definitions_while.insert(entry);
+        } else {
+            closed_definitions.insert(entry);
+        }
     }
 
     for (auto open_read : undefined_while) {
-- 
2.43.0


From 767e3fdff49c5dd2e25bac16c7d6939811cd2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 21/60] fix: compare what is assigned, not only where, in
 ConstantPropagation

---
 .../passes/dataflow/constant_propagation.cpp  | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/sdfg/src/passes/dataflow/constant_propagation.cpp b/sdfg/src/passes/dataflow/constant_propagation.cpp
index 6e1c750..1eab6e2 100644
--- a/sdfg/src/passes/dataflow/constant_propagation.cpp
+++ b/sdfg/src/passes/dataflow/constant_propagation.cpp
@@ -65,6 +65,73 @@ std::unordered_set<analysis::User*> inputs(analysis::User& user, analysis::Users
     }
 }
 
+// Both definitions compute the same function of their inputs
+bool identical_definitions(const std::string& container, analysis::User& define1, analysis::User& define2) {
+    auto transition1 = dynamic_cast<structured_control_flow::Transition*>(define1.element());
+    auto transition2 = dynamic_cast<structured_control_flow::Transition*>(define2.element());
+    if (transition1 && transition2) {
+        auto sym = symbolic::symbol(container);
+        return symbolic::eq(transition1->assignments().at(sym), transition2->assignments().at(sym));
+    }
+
+    auto node1 = dynamic_cast<data_flow::AccessNode*>(define1.element());
+    auto node2 = dynamic_cast<data_flow::AccessNode*>(define2.element());
+    if (!node1 || !node2) {
+        return false;
+    }
+    auto& graph1 = node1->get_parent();
+    auto& graph2 = node2->get_parent();
+    if (graph1.in_degree(*node1) != 1 || graph2.in_degree(*node2) != 1) {
+        return false;
+    }
+    auto identical_memlets = [](const data_flow::Memlet& edge1, const data_flow::Memlet& edge2) {
+        if (edge1.type() != edge2.type() || edge1.base_type() != edge2.base_type() ||
+            edge1.dst_conn() != edge2.dst_conn() || edge1.src_conn() != edge2.src_conn()) {
+            return false;
+        }
+        if (edge1.subset().size() != edge2.subset().size()) {
+            return false;
+        }
+        for (size_t i = 0; i < edge1.subset().size(); i++) {
+            if (!symbolic::eq(edge1.subset().at(i), edge2.subset().at(i))) {
+                return false;
+            }
+        }
+        return true;
+    };
+    auto& iedge1 = *graph1.in_edges(*node1).begin();
+    auto& iedge2 = *graph2.in_edges(*node2).begin();
+    if (!identical_memlets(iedge1, iedge2)) {
+        return false;
+    }
+    auto tasklet1 = dynamic_cast<data_flow::Tasklet*>(&iedge1.src());
+    auto tasklet2 = dynamic_cast<data_flow::Tasklet*>(&iedge2.src());
+    if (!tasklet1 && !tasklet2) {
+        auto src1 = dynamic_cast<data_flow::AccessNode*>(&iedge1.src());
+        auto src2 = dynamic_cast<data_flow::AccessNode*>(&iedge2.src());
+        return src1 && src2 && src1->data() == src2->data();
+    }
+    if (!tasklet1 || !tasklet2 || tasklet1->code() != tasklet2->code() ||
+        graph1.in_degree(*tasklet1) != graph2.in_degree(*tasklet2)) {
+        return false;
+    }
+    for (auto& edge1 : graph1.in_edges(*tasklet1)) {
+        bool found = false;
+        for (auto& edge2 : graph2.in_edges(*tasklet2)) {
+            auto& src1 = static_cast<data_flow::AccessNode&>(edge1.src());
+            auto& src2 = static_cast<data_flow::AccessNode&>(edge2.src());
+            if (src1.data() == src2.data() && identical_memlets(edge1, edge2)) {
+                found = true;
+                break;
+            }
+        }
+        if (!found) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
     bool applied = false;
 
@@ -134,6 +201,9 @@ bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, anal
         }
 
         // Criterion: Provide identical rhs/inputs of definitions
+        if (!identical_definitions(name, *define1, *define2)) {
+            continue;
+        }
         auto inputs1 = inputs(*define1, users);
         if (inputs1.empty()) {
             continue;
-- 
2.43.0


From e3ae18f4ba24bf8c455afbf47c831e94960ab4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 22/60] fix: do not propagate a reference over writes to the
 symbols of its subset

---
 .../passes/dataflow/reference_propagation.cpp | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index a04cf9d..e753434 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -129,24 +129,29 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 continue;
             }
 
-            // Criterion: No reassignment of pointer or view in between
-            if (users_analysis.moves(viewed_container).size() > 0) {
-                auto uses_between = users_analysis.all_uses_between(*move, *user);
-                bool unsafe = false;
-                for (auto& use : uses_between) {
-                    if (use->use() != analysis::Use::MOVE) {
-                        continue;
-                    }
+            // Criterion: No reassignment of pointer or view, or of a symbol of the view's subset in between
+            std::unordered_set<std::string> move_symbols;
+            for (auto& dim : move_subset) {
+                for (auto& sym : symbolic::atoms(dim)) {
+                    move_symbols.insert(sym->get_name());
+                }
+            }
+            bool unsafe = false;
+            for (auto& use : users_analysis.all_uses_between(*move, *user)) {
+                if (use->use() == analysis::Use::MOVE && use->container() == viewed_container) {
                     // Pointer is not constant
-                    if (use->container() == viewed_container) {
-                        unsafe = true;
-                        break;
-                    }
+                    unsafe = true;
+                    break;
                 }
-                if (unsafe) {
-                    continue;
+                if (use->use() == analysis::Use::WRITE && move_symbols.find(use->container()) != move_symbols.end()) {
+                    // Address is not constant
+                    unsafe = true;
+                    break;
                 }
             }
+            if (unsafe) {
+                continue;
+            }
 
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
-- 
2.43.0


From 79479c34d213d864cf36f13f3f9ee9f96e12d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 23/60] fix: do not parallelize loops that access written
 memory through another pointer

---
 .../structured_control_flow/for2map.cpp       | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..89f91b3 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -127,7 +127,50 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // c. indvar not used after for
+    // c. No access to the written memory through another pointer
+    std::unordered_map<std::string, std::unordered_set<std::string>> views;
+    for (auto& move : users.moves()) {
+        auto move_node = dynamic_cast<const data_flow::AccessNode*>(move->element());
+        if (!move_node) {
+            continue;
+        }
+        for (auto& edge : move_node->get_parent().in_edges(*move_node)) {
+            auto move_src = dynamic_cast<const data_flow::AccessNode*>(&edge.src());
+            if (!move_src || dynamic_cast<const data_flow::ConstantNode*>(move_src) ||
+                edge.type() != data_flow::MemletType::Reference) {
+                continue;
+            }
+            views[move->container()].insert(move_src->data());
+            views[move_src->data()].insert(move->container());
+        }
+    }
+    for (auto& write : body_users.writes()) {
+        if (!views.contains(write->container())) {
+            continue;
+        }
+        std::unordered_set<std::string> aliases = {write->container()};
+        std::list<std::string> alias_queue = {write->container()};
+        while (!alias_queue.empty()) {
+            auto alias = alias_queue.front();
+            alias_queue.pop_front();
+            for (auto& view : views[alias]) {
+                if (aliases.insert(view).second) {
+                    alias_queue.push_back(view);
+                }
+            }
+        }
+        for (auto& alias : aliases) {
+            if (locals.find(alias) != locals.end() && body_users.moves(alias).empty()) {
+                continue;
+            }
+            bool other = alias != write->container() && !body_users.uses(alias).empty();
+            if (other || !body_users.moves(alias).empty()) {
+                return false;
+            }
+        }
+    }
+
+    // d. indvar not used after for
     if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
         return false;
     }
-- 
2.43.0


From c4f6b297355a34ecc035a3fdb49df2e8848ae1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 24/60] fix: evolve symbols only if the closed form holds in
 every iteration and after the loop

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 66 ++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 2ad6932..04dc036 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -125,6 +125,7 @@ bool SymbolEvolution::eliminate_symbols(
 
     auto& users = analysis_manager.get<analysis::Users>();
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     analysis::UsersView body_users(users, loop.root());
 
     // Loop-dependent symbols are written in the loop body
@@ -201,6 +202,44 @@ bool SymbolEvolution::eliminate_symbols(
         auto& init_transition = static_cast<structured_control_flow::Transition&>(*init_write->element());
         auto init_sym = init_transition.assignments().at(symbolic::symbol(sym));
 
+        // Criterion: Each execution of the loop starts from the initial value
+        bool reinitialized = true;
+        const structured_control_flow::ControlFlowNode* scope = &transition.parent();
+        while (scope != &init_transition.parent()) {
+            if (scope == nullptr || dynamic_cast<const structured_control_flow::StructuredLoop*>(scope) ||
+                dynamic_cast<const structured_control_flow::While*>(scope)) {
+                reinitialized = false;
+                break;
+            }
+            scope = scope_analysis.parent_scope(scope);
+        }
+        if (!reinitialized) {
+            continue;
+        }
+
+        // Criterion: Initial value can be recomputed in the loop
+        auto init_symbols = symbolic::atoms(init_sym);
+        if (symbolic::uses(init_sym, symbolic::symbol(sym))) {
+            continue;
+        }
+        bool init_changes = false;
+        for (auto& use : users.all_uses_between(*init_write, *update_write)) {
+            if (use->use() != analysis::Use::WRITE) {
+                continue;
+            }
+            for (auto& init_symbol : init_symbols) {
+                init_changes |= init_symbol->get_name() == use->container();
+            }
+        }
+        for (auto& assignment : init_transition.assignments()) {
+            for (auto& init_symbol : init_symbols) {
+                init_changes |= symbolic::eq(assignment.first, init_symbol);
+            }
+        }
+        if (init_changes) {
+            continue;
+        }
+
         // Criterion: Infer scalar evolution
         auto evolution =
             scalar_evolution(loop, indvar, update, init, symbolic::symbol(sym), update_sym, init_sym, candidates);
@@ -208,13 +247,38 @@ bool SymbolEvolution::eliminate_symbols(
             continue;
         }
 
+        // Criterion: Final value is only valid if the loop is entered
+        if (!symbolic::is_true(symbolic::subs(condition, indvar, init))) {
+            bool needs_final_value = !builder.subject().is_transient(sym);
+            std::unordered_set<analysis::User*> body_reads;
+            for (auto& use : body_users.reads(sym)) {
+                body_reads.insert(use);
+            }
+            for (auto& use : users.reads(sym)) {
+                needs_final_value |= body_reads.find(use) == body_reads.end();
+            }
+            if (needs_final_value) {
+                continue;
+            }
+        }
+
+        // The induction variable has already advanced after the loop
+        auto final_sym = update_sym;
+        if (symbolic::uses(update_sym, indvar)) {
+            auto stride = analysis::LoopAnalysis::stride(&loop);
+            if (stride == SymEngine::null) {
+                continue;
+            }
+            final_sym = symbolic::subs(update_sym, indvar, symbolic::sub(indvar, stride));
+        }
+
         // Apply by inserting redefinition before the loop body
         auto& old_first_block = loop.root().at(0).first;
         builder.add_block_before(
             loop.root(), old_first_block, {{symbolic::symbol(sym), evolution}}, old_first_block.debug_info()
         );
         update_transition.assignments().erase(symbolic::symbol(sym));
-        transition.assignments().insert({symbolic::symbol(sym), update_sym});
+        transition.assignments().insert({symbolic::symbol(sym), final_sym});
 
         applied = true;
     }
-- 
2.43.0


From a4bc0a77e17c70e05c67c77b791a1e2d47c99939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 25/60] fix: do not compare dimensions that are delinearized
 with different strides

---
 sdfg/include/sdfg/symbolic/utils.h | 20 +++++++++++
 sdfg/src/symbolic/maps.cpp         |  5 ++-
 sdfg/src/symbolic/sets.cpp         | 12 ++++---
 sdfg/src/symbolic/utils.cpp        | 53 +++++++++++++++++++++++++-----
 4 files changed, 75 insertions(+), 15 deletions(-)

diff --git a/sdfg/include/sdfg/symbolic/utils.h b/sdfg/include/sdfg/symbolic/utils.h
index fa4f399..881a430 100644
--- a/sdfg/include/sdfg/symbolic/utils.h
+++ b/sdfg/include/sdfg/symbolic/utils.h
@@ -104,5 +104,25 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
  */
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums);
 
+/**
+ * @brief Delinearizes a multi-dimensional expression and returns the stride of each resulting dimension
+ */
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums, MultiExpression& strides);
+
+/**
+ * @brief Delinearizes two expressions such that their dimensions can be compared
+ * @return false if the expressions have a different number of dimensions
+ *
+ * The expressions are returned as they are, if they are delinearized with different strides.
+ */
+bool delinearize(
+    const MultiExpression& expr1,
+    const Assumptions& assums1,
+    const MultiExpression& expr2,
+    const Assumptions& assums2,
+    MultiExpression& delinearized1,
+    MultiExpression& delinearized2
+);
+
 } // namespace symbolic
 } // namespace sdfg
diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index 395f4da..8f22a87 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -93,9 +93,8 @@ bool is_disjoint_isl(
     }
 
     // Transform both expressions into two maps with separate dimensions
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
-    if (expr1_delinearized.size() != expr2_delinearized.size()) {
+    MultiExpression expr1_delinearized, expr2_delinearized;
+    if (!delinearize(expr1, assums1, expr2, assums2, expr1_delinearized, expr2_delinearized)) {
         return false;
     }
 
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 3b1802f..eaa1d69 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -17,8 +17,10 @@ bool is_subset(
         return true;
     }
 
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    MultiExpression expr1_delinearized, expr2_delinearized;
+    if (!delinearize(expr1, assums1, expr2, assums2, expr1_delinearized, expr2_delinearized)) {
+        return false;
+    }
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -73,8 +75,10 @@ bool is_subset(
 bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    MultiExpression expr1_delinearized, expr2_delinearized;
+    if (!delinearize(expr1, assums1, expr2, assums2, expr1_delinearized, expr2_delinearized)) {
+        return false;
+    }
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index ac71c07..3be3b79 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -609,7 +609,17 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
 }
 
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+    MultiExpression strides;
+    return delinearize(expr, assums, strides);
+}
+
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums, MultiExpression& strides) {
     MultiExpression delinearized;
+    strides.clear();
+    auto keep = [&](const Expression& dim) {
+        delinearized.push_back(dim);
+        strides.push_back(symbolic::one());
+    };
     for (auto& dim : expr) {
         // Check if more than two symbols are involved
         SymbolVec symbols;
@@ -619,19 +629,19 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             }
         }
         if (symbols.size() < 1) {
-            delinearized.push_back(dim);
+            keep(dim);
             continue;
         }
 
         // Step 1: Get polynomial form and affine coefficients
         auto poly = polynomial(dim, symbols);
         if (poly == SymEngine::null) {
-            delinearized.push_back(dim);
+            keep(dim);
             continue;
         }
         auto aff_coeffs = affine_coefficients(poly, symbols);
         if (aff_coeffs.empty()) {
-            delinearized.push_back(dim);
+            keep(dim);
             continue;
         }
         auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
@@ -641,6 +651,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         bool success = true;
         Expression remaining = symbolic::sub(dim, offset);
         std::vector<Expression> peeled_dims;
+        std::vector<Expression> peeled_strides;
         while (!aff_coeffs.empty()) {
             // Find the symbol with largest stride (= largest atom count)
             Symbol new_dim = SymEngine::null;
@@ -708,27 +719,53 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             auto final_dim = symbolic::add(new_dim, q);
 
             peeled_dims.push_back(final_dim);
+            peeled_strides.push_back(stride);
             aff_coeffs.erase(new_dim);
         }
         // Not all dimensions could be peeled off
         if (!aff_coeffs.empty()) {
-            delinearized.push_back(dim);
+            keep(dim);
             continue;
         }
         // Offset did not reduce to zero
         if (!symbolic::eq(offset, symbolic::zero())) {
-            delinearized.push_back(dim);
+            keep(dim);
             continue;
         }
 
         // Success
-        for (auto& peeled_dim : peeled_dims) {
-            delinearized.push_back(peeled_dim);
-        }
+        delinearized.insert(delinearized.end(), peeled_dims.begin(), peeled_dims.end());
+        strides.insert(strides.end(), peeled_strides.begin(), peeled_strides.end());
     }
 
     return delinearized;
 }
 
+bool delinearize(
+    const MultiExpression& expr1,
+    const Assumptions& assums1,
+    const MultiExpression& expr2,
+    const Assumptions& assums2,
+    MultiExpression& delinearized1,
+    MultiExpression& delinearized2
+) {
+    MultiExpression strides1, strides2;
+    delinearized1 = delinearize(expr1, assums1, strides1);
+    delinearized2 = delinearize(expr2, assums2, strides2);
+    if (delinearized1.size() != delinearized2.size()) {
+        return false;
+    }
+
+    // Dimensions of different strides can not be compared
+    for (size_t i = 0; i < strides1.size(); i++) {
+        if (!symbolic::eq(strides1[i], strides2[i])) {
+            delinearized1 = expr1;
+            delinearized2 = expr2;
+            return expr1.size() == expr2.size();
+        }
+    }
+    return true;
+}
+
 } // namespace symbolic
 } // namespace sdfg
-- 
2.43.0


From b951012a37d195beae258af6a045bc0bfe8752be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 26/60] fix: topological order of a data flow graph never puts
 a node before its predecessors

---
 sdfg/src/data_flow/data_flow_graph.cpp | 39 ++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/data_flow/data_flow_graph.cpp b/sdfg/src/data_flow/data_flow_graph.cpp
index 2b879e1..a7540f3 100644
--- a/sdfg/src/data_flow/data_flow_graph.cpp
+++ b/sdfg/src/data_flow/data_flow_graph.cpp
@@ -263,6 +263,31 @@ std::unordered_set<const data_flow::DataFlowNode*> DataFlowGraph::successors(con
     return ss;
 };
 
+// Whether a node's list depends directly or indirectly on one of the lists in targets
+template<typename Node>
+static bool depends_on_any(
+    const std::unordered_map<Node*, std::list<std::pair<Node*, long long>>>& dependencies,
+    Node* node,
+    const std::unordered_set<Node*>& targets
+) {
+    std::unordered_set<Node*> seen;
+    std::list<Node*> queue = {node};
+    while (!queue.empty()) {
+        auto* current = queue.front();
+        queue.pop_front();
+        if (targets.contains(current)) {
+            return true;
+        }
+        if (!seen.insert(current).second) {
+            continue;
+        }
+        for (auto& entry : dependencies.at(current)) {
+            queue.push_back(entry.first);
+        }
+    }
+    return false;
+}
+
 std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
     auto [num_components, components_map] = graph::weakly_connected_components(this->graph_);
 
@@ -468,6 +493,7 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
             }
 
             std::stack<const DataFlowNode*> stack({sink});
+            std::unordered_set<const DataFlowNode*> pending({sink});
             while (!stack.empty()) {
                 const auto* current = stack.top();
                 visited.insert(current);
@@ -476,6 +502,7 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
                 for (auto [node, dependency_id] : dependencies.at(current)) {
                     if (!visited.contains(node)) {
                         stack.push(node);
+                        pending.insert(node);
                         all_resolved = false;
                         break;
                     }
@@ -485,8 +512,10 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
                             continue;
                         }
                         const auto* node2 = backward_dependencies.at({node, j});
-                        if (!visited.contains(node2)) {
+                        // The order of siblings is a preference, dependencies are not
+                        if (!visited.contains(node2) && !depends_on_any(dependencies, node2, pending)) {
                             stack.push(node2);
+                            pending.insert(node2);
                             all_resolved = false;
                             break;
                         }
@@ -501,6 +530,7 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
 
                 components.at(i).insert(components.at(i).end(), lists.at(current).begin(), lists.at(current).end());
                 stack.pop();
+                pending.erase(current);
             }
         }
     }
@@ -725,6 +755,7 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
             }
 
             std::stack<DataFlowNode*> stack({sink});
+            std::unordered_set<DataFlowNode*> pending({sink});
             while (!stack.empty()) {
                 auto* current = stack.top();
                 visited.insert(current);
@@ -733,6 +764,7 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
                 for (auto [node, dependency_id] : dependencies.at(current)) {
                     if (!visited.contains(node)) {
                         stack.push(node);
+                        pending.insert(node);
                         all_resolved = false;
                         break;
                     }
@@ -742,8 +774,10 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
                             continue;
                         }
                         auto* node2 = backward_dependencies.at({node, j});
-                        if (!visited.contains(node2)) {
+                        // The order of siblings is a preference, dependencies are not
+                        if (!visited.contains(node2) && !depends_on_any(dependencies, node2, pending)) {
                             stack.push(node2);
+                            pending.insert(node2);
                             all_resolved = false;
                             break;
                         }
@@ -758,6 +792,7 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
 
                 components.at(i).insert(components.at(i).end(), lists.at(current).begin(), lists.at(current).end());
                 stack.pop();
+                pending.erase(current);
             }
         }
     }
-- 
2.43.0


From 9b2dc2589e29d2314a759c8e2f4ff2940663c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 27/60] fix: CommonAssignmentElimination requires a complete
 if-else and independent conditions

---
 .../common_assignment_elimination.cpp         | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
index 500a2f1..8c7f987 100644
--- a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
@@ -5,6 +5,23 @@
 namespace sdfg {
 namespace passes {
 
+// Assignment neither reads what the other assignments write nor writes what they read
+static bool are_independent(
+    const symbolic::Symbol& symbol,
+    const symbolic::Expression& assignment,
+    const control_flow::Assignments& other_assignments
+) {
+    for (auto& entry : other_assignments) {
+        if (symbolic::eq(entry.first, symbol)) {
+            continue;
+        }
+        if (symbolic::uses(assignment, entry.first) || symbolic::uses(entry.second, symbol)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 CommonAssignmentElimination::CommonAssignmentElimination()
     : Pass() {
 
@@ -27,7 +44,8 @@ bool CommonAssignmentElimination::
             for (size_t i = 0; i < sequence_stmt->size(); i++) {
                 auto child = sequence_stmt->at(i);
                 if (auto if_else_stmt = dynamic_cast<structured_control_flow::IfElse*>(&child.first)) {
-                    if (if_else_stmt->size() < 2) {
+                    // Some branch must be taken
+                    if (if_else_stmt->size() < 2 || !if_else_stmt->is_complete()) {
                         continue;
                     }
                     auto& first_branch = if_else_stmt->at(0).first;
@@ -40,7 +58,8 @@ bool CommonAssignmentElimination::
                     }
 
                     // Check waw dependencies
-                    for (auto& entry : last_transition.assignments()) {
+                    const auto first_assignments = last_transition.assignments();
+                    for (auto& entry : first_assignments) {
                         auto& first_assign = entry.first;
                         auto& first_assignment = entry.second;
                         if (child.second.assignments().find(first_assign) != child.second.assignments().end()) {
@@ -71,6 +90,23 @@ bool CommonAssignmentElimination::
                             continue;
                         }
 
+                        // The assignment moves behind the remaining assignments of the branches
+                        // and joins the assignments after the if-else
+                        bool independent = are_independent(first_assign, first_assignment, child.second.assignments());
+                        for (size_t j = 0; j < if_else_stmt->size(); j++) {
+                            auto& branch = if_else_stmt->at(j).first;
+                            independent &= are_independent(
+                                first_assign, first_assignment, branch.at(branch.size() - 1).second.assignments()
+                            );
+                        }
+                        if (!independent) {
+                            continue;
+                        }
+
+                        for (size_t j = 0; j < if_else_stmt->size(); j++) {
+                            auto& branch = if_else_stmt->at(j).first;
+                            branch.at(branch.size() - 1).second.assignments().erase(first_assign);
+                        }
                         child.second.assignments().insert({first_assign, first_assignment});
                         applied = true;
                     }
-- 
2.43.0


From 8fb21ac7066a19c8a86a89fd35b9e7262fd668ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 28/60] fix: PointerEvolution requires unit stride and a
 pointer that is reset and not used after the loop

---
 .../pointer_evolution.cpp                     | 59 ++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp b/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
index 027b5bf..7861cad 100644
--- a/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
+++ b/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
@@ -3,6 +3,7 @@
 #include "sdfg/analysis/assumptions_analysis.h"
 #include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
 #include "sdfg/symbolic/polynomials.h"
 #include "sdfg/symbolic/series.h"
@@ -10,6 +11,22 @@
 namespace sdfg {
 namespace passes {
 
+static analysis::User* find_reset(
+    analysis::Users& users,
+    analysis::DominanceAnalysis& dominance_analysis,
+    structured_control_flow::Sequence& scope,
+    const std::string& iterator,
+    analysis::User& move
+) {
+    analysis::UsersView scope_users(users, scope);
+    for (auto& other_move : scope_users.moves(iterator)) {
+        if (other_move != &move && dominance_analysis.dominates(*other_move, move)) {
+            return other_move;
+        }
+    }
+    return nullptr;
+}
+
 IteratorToIndvar::IteratorToIndvar(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
     : NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {
 
@@ -66,9 +83,49 @@ bool IteratorToIndvar::accept(structured_control_flow::For& loop) {
         return false;
     }
 
+    // Criterion: Iterator advances by one element with each increment of the induction variable
+    auto stride = analysis::LoopAnalysis::stride(&loop);
+    if (stride == SymEngine::null || !symbolic::eq(stride, symbolic::one())) {
+        return false;
+    }
+    auto& scope_analysis = analysis_manager_.get<analysis::ScopeAnalysis>();
+    auto* move_block = dynamic_cast<structured_control_flow::Block*>(dfg.get_parent());
+    if (scope_analysis.parent_scope(move_block) != &loop.root()) {
+        return false;
+    }
+
+    // Criterion: Iterator is not used after the loop, unless it is set again
+    auto& dominance_analysis = analysis_manager_.get<analysis::DominanceAnalysis>();
+    std::unordered_set<analysis::User*> body_uses;
+    for (auto& use : body_users.uses(iterator)) {
+        body_uses.insert(use);
+    }
+    for (auto& use : users_analysis.all_uses_after(*move)) {
+        if (use->container() == iterator && use->use() != analysis::Use::MOVE && body_uses.find(use) == body_uses.end()) {
+            return false;
+        }
+    }
+
+    // Criterion: Iterator is set again for each execution of the loop
+    for (auto& scope : scope_analysis.ancestor_scopes(&loop)) {
+        analysis::User* reset = nullptr;
+        if (scope == &loop) {
+            continue;
+        } else if (auto* outer_loop = dynamic_cast<structured_control_flow::StructuredLoop*>(scope)) {
+            reset = find_reset(users_analysis, dominance_analysis, outer_loop->root(), iterator, *move);
+        } else if (auto* outer_while = dynamic_cast<structured_control_flow::While*>(scope)) {
+            reset = find_reset(users_analysis, dominance_analysis, outer_while->root(), iterator, *move);
+        } else {
+            continue;
+        }
+        if (reset == nullptr) {
+            return false;
+        }
+        break;
+    }
+
     // All uses of iterator happen before update
     std::unordered_set<data_flow::Memlet*> edges;
-    auto& dominance_analysis = analysis_manager_.get<analysis::DominanceAnalysis>();
     for (auto& use : body_users.uses(iterator)) {
         // Ignore move
         if (use == move) {
-- 
2.43.0


From 238ff05e6108234b2158a3da3a3e23a8a38a2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 29/60] fix: SymbolEvolution affine pattern requires an offset
 independent of the evolving symbols

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 04dc036..55a52c2 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -100,6 +100,9 @@ symbolic::Expression scalar_evolution(
         return SymEngine::null;
     }
     auto offset = coeffs.at(symbolic::symbol("__daisy_constant__"));
+    if (symbolic::uses(offset, indvar) || symbolic::uses(offset, sym)) {
+        return SymEngine::null;
+    }
 
     auto iter = symbolic::div(symbolic::sub(indvar, indvar_init), stride);
     auto inv = symbolic::add(symbolic::mul(iter, offset), sym_init);
-- 
2.43.0


From 8cc227085fa1f66249ddf3515c4d3dd09277f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 30/60] fix: delinearize only if the inner dimensions stay
 within their strides

---
 sdfg/src/symbolic/utils.cpp | 69 ++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 3be3b79..bb656ad 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -608,6 +608,49 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
+// Whether the affine expression is always less than the stride
+static bool is_within_stride(
+    const Expression& stride, const AffineCoeffs& coeffs, const Expression& constant, const Assumptions& assums
+) {
+    // Upper bounds of the expression, one per choice of upper bounds of its symbols
+    std::vector<Expression> sums = {constant};
+    for (auto& [sym, coeff] : coeffs) {
+        auto coeff_lb = minimum(coeff, {}, assums);
+        if (coeff_lb.is_null() || !symbolic::is_true(symbolic::Ge(coeff_lb, symbolic::zero()))) {
+            return false;
+        }
+
+        ExpressionSet bounds = assums.at(sym).upper_bounds();
+        bounds.insert(assums.at(sym).upper_bound_deprecated());
+        std::vector<Expression> new_sums;
+        for (auto& bound : bounds) {
+            std::vector<Expression> alternatives = {bound};
+            if (SymEngine::is_a<SymEngine::Min>(*bound)) {
+                alternatives = bound->get_args();
+            }
+            for (auto& alternative : alternatives) {
+                if (SymEngine::is_a<SymEngine::Infty>(*alternative)) {
+                    continue;
+                }
+                for (auto& sum : sums) {
+                    if (new_sums.size() < 64) {
+                        new_sums.push_back(symbolic::add(sum, symbolic::mul(coeff, alternative)));
+                    }
+                }
+            }
+        }
+        sums = new_sums;
+    }
+
+    for (auto& sum : sums) {
+        auto distance = minimum(symbolic::expand(symbolic::sub(stride, sum)), {}, assums);
+        if (!distance.is_null() && symbolic::is_true(symbolic::Ge(distance, symbolic::one()))) {
+            return true;
+        }
+    }
+    return false;
+}
+
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
     MultiExpression strides;
     return delinearize(expr, assums, strides);
@@ -652,6 +695,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         Expression remaining = symbolic::sub(dim, offset);
         std::vector<Expression> peeled_dims;
         std::vector<Expression> peeled_strides;
+        std::vector<Symbol> peeled_symbols;
         while (!aff_coeffs.empty()) {
             // Find the symbol with largest stride (= largest atom count)
             Symbol new_dim = SymEngine::null;
@@ -706,10 +750,9 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             }
 
             // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
-            if (!symbolic::is_true(cond_stride)) {
+            auto remaining_coeffs = aff_coeffs;
+            remaining_coeffs.erase(new_dim);
+            if (!is_within_stride(stride, remaining_coeffs, symbolic::zero(), assums)) {
                 break;
             }
 
@@ -720,6 +763,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
 
             peeled_dims.push_back(final_dim);
             peeled_strides.push_back(stride);
+            peeled_symbols.push_back(new_dim);
             aff_coeffs.erase(new_dim);
         }
         // Not all dimensions could be peeled off
@@ -733,6 +777,23 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             continue;
         }
 
+        // Offsets must not move the inner dimensions out of their strides
+        bool within = true;
+        AffineCoeffs inner_coeffs;
+        Expression inner_offset = symbolic::zero();
+        for (size_t i = peeled_dims.size(); i-- > 1 && within;) {
+            inner_coeffs[peeled_symbols[i]] = peeled_strides[i];
+            auto dim_offset = symbolic::sub(peeled_dims[i], peeled_symbols[i]);
+            inner_offset = symbolic::add(inner_offset, symbolic::mul(peeled_strides[i], dim_offset));
+            auto dim_lb = minimum(peeled_dims[i], {}, assums);
+            within = !dim_lb.is_null() && symbolic::is_true(symbolic::Ge(dim_lb, symbolic::zero())) &&
+                     is_within_stride(peeled_strides[i - 1], inner_coeffs, inner_offset, assums);
+        }
+        if (!within) {
+            keep(dim);
+            continue;
+        }
+
         // Success
         delinearized.insert(delinearized.end(), peeled_dims.begin(), peeled_dims.end());
         strides.insert(strides.end(), peeled_strides.begin(), peeled_strides.end());
-- 
2.43.0


From 82e1e18818d0a2718ede7a6ab65651f43ba07a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 31/60] fix: do not distribute loops whose body may jump

---
 sdfg/src/transformations/loop_distribute.cpp | 32 ++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/sdfg/src/transformations/loop_distribute.cpp b/sdfg/src/transformations/loop_distribute.cpp
index 1c2f9ec..5ae7046 100644
--- a/sdfg/src/transformations/loop_distribute.cpp
+++ b/sdfg/src/transformations/loop_distribute.cpp
@@ -7,6 +7,33 @@
 namespace sdfg {
 namespace transformations {
 
+// Whether executing the node may leave the surrounding loop or skip a part of its body
+static bool may_jump(const structured_control_flow::ControlFlowNode& node, bool nested) {
+    if (dynamic_cast<const structured_control_flow::Return*>(&node)) {
+        return true;
+    } else if (dynamic_cast<const structured_control_flow::Break*>(&node) ||
+               dynamic_cast<const structured_control_flow::Continue*>(&node)) {
+        return !nested;
+    } else if (auto seq = dynamic_cast<const structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < seq->size(); i++) {
+            if (may_jump(seq->at(i).first, nested)) {
+                return true;
+            }
+        }
+    } else if (auto if_else = dynamic_cast<const structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < if_else->size(); i++) {
+            if (may_jump(if_else->at(i).first, nested)) {
+                return true;
+            }
+        }
+    } else if (auto while_stmt = dynamic_cast<const structured_control_flow::While*>(&node)) {
+        return may_jump(while_stmt->root(), true);
+    } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(&node)) {
+        return may_jump(loop->root(), true);
+    }
+    return false;
+}
+
 LoopDistribute::LoopDistribute(structured_control_flow::StructuredLoop& loop)
     : loop_(loop) {
 
@@ -26,6 +53,11 @@ bool LoopDistribute::can_be_applied(builder::StructuredSDFGBuilder& builder, ana
         return false;
     }
 
+    // Criterion: All iterations execute the whole body
+    if (may_jump(body, false)) {
+        return false;
+    }
+
     // Criterion: Child does not write to loop-local containers
     /**
      * Positive example:
-- 
2.43.0


From 125698a679a6e08b4dcb18a164111f7c868c4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 32/60] fix: fuse blocks only if the fused graph orders all
 conflicting accesses

---
 .../structured_control_flow/block_fusion.cpp  | 63 +++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 409eab6..28a4d1d 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/passes/structured_control_flow/block_fusion.h"
 #include <cstddef>
+#include <list>
 #include <unordered_set>
 #include <utility>
 #include "sdfg/data_flow/access_node.h"
@@ -124,6 +125,68 @@ bool BlockFusion::can_be_applied(
         }
     }
 
+    // Criterion: The fused graph must order all accesses of which at least one writes
+    auto reachable = [](const data_flow::DataFlowGraph& graph, const data_flow::DataFlowNode& start) {
+        std::unordered_set<const data_flow::DataFlowNode*> seen = {&start};
+        std::list<const data_flow::DataFlowNode*> queue = {&start};
+        while (!queue.empty()) {
+            auto* current = queue.front();
+            queue.pop_front();
+            for (auto& edge : graph.out_edges(*current)) {
+                if (seen.insert(&edge.dst()).second) {
+                    queue.push_back(&edge.dst());
+                }
+            }
+        }
+        return seen;
+    };
+    auto pdoms = first_graph.post_dominators();
+    std::vector<std::pair<const data_flow::DataFlowNode*, std::unordered_set<const data_flow::DataFlowNode*>>> connectors;
+    for (auto* node : second_graph.sources()) {
+        auto* access_node = dynamic_cast<data_flow::AccessNode*>(node);
+        if (access_node && pdoms.contains(access_node->data())) {
+            connectors.push_back({pdoms.at(access_node->data()), reachable(second_graph, *access_node)});
+        }
+    }
+    for (auto* first_node : first_graph.data_nodes()) {
+        if (dynamic_cast<const data_flow::ConstantNode*>(first_node)) {
+            continue;
+        }
+        for (auto* second_node : second_graph.data_nodes()) {
+            if (dynamic_cast<const data_flow::ConstantNode*>(second_node) ||
+                first_node->data() != second_node->data()) {
+                continue;
+            }
+            bool first_writes = first_graph.in_degree(*first_node) > 0;
+            bool second_writes = second_graph.in_degree(*second_node) > 0;
+            if (!first_writes && !second_writes) {
+                continue;
+            }
+
+            // The last nodes that access the container in the first graph ...
+            std::vector<const data_flow::DataFlowNode*> last = {first_node};
+            if (second_writes) {
+                for (auto& edge : first_graph.out_edges(*first_node)) {
+                    last.push_back(&edge.dst());
+                }
+            }
+            // ... are executed before the first node that accesses it in the second graph
+            for (auto* node : last) {
+                auto successors = reachable(first_graph, *node);
+                bool ordered = false;
+                for (auto& [connector, reached] : connectors) {
+                    if (successors.contains(connector) && reached.contains(second_node)) {
+                        ordered = true;
+                        break;
+                    }
+                }
+                if (!ordered) {
+                    return false;
+                }
+            }
+        }
+    }
+
     // For each combination of weakly connected components:
     for (size_t first = 0; first < first_num_components; first++) {
         for (size_t second = 0; second < second_num_components; second++) {
-- 
2.43.0


From 69752442ed9526f630c9e363068be0cad4672e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 33/60] fix: do not fuse blocks that access written memory
 through different pointers

---
 .../structured_control_flow/block_fusion.cpp  | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 28a4d1d..7494a99 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -3,6 +3,7 @@
 #include <list>
 #include <unordered_set>
 #include <utility>
+#include "sdfg/analysis/users.h"
 #include "sdfg/data_flow/access_node.h"
 #include "sdfg/data_flow/data_flow_node.h"
 
@@ -187,6 +188,46 @@ bool BlockFusion::can_be_applied(
         }
     }
 
+    // Criterion: No accesses to written memory through another pointer
+    auto& users = analysis_manager_.get<analysis::Users>();
+    std::unordered_map<std::string, std::unordered_set<std::string>> views;
+    for (auto& move : users.moves()) {
+        auto move_node = dynamic_cast<const data_flow::AccessNode*>(move->element());
+        if (!move_node) {
+            continue;
+        }
+        for (auto& edge : move_node->get_parent().in_edges(*move_node)) {
+            auto move_src = dynamic_cast<const data_flow::AccessNode*>(&edge.src());
+            if (!move_src || dynamic_cast<const data_flow::ConstantNode*>(move_src)) {
+                continue;
+            }
+            views[move->container()].insert(move_src->data());
+            views[move_src->data()].insert(move->container());
+        }
+    }
+    for (auto* first_node : first_graph.data_nodes()) {
+        if (!views.contains(first_node->data())) {
+            continue;
+        }
+        std::unordered_set<std::string> aliases = {first_node->data()};
+        std::list<std::string> queue = {first_node->data()};
+        while (!queue.empty()) {
+            auto alias = queue.front();
+            queue.pop_front();
+            for (auto& view : views[alias]) {
+                if (aliases.insert(view).second) {
+                    queue.push_back(view);
+                }
+            }
+        }
+        for (auto* second_node : second_graph.data_nodes()) {
+            if (second_node->data() != first_node->data() && aliases.contains(second_node->data()) &&
+                (first_graph.in_degree(*first_node) > 0 || second_graph.in_degree(*second_node) > 0)) {
+                return false;
+            }
+        }
+    }
+
     // For each combination of weakly connected components:
     for (size_t first = 0; first < first_num_components; first++) {
         for (size_t second = 0; second < second_num_components; second++) {
-- 
2.43.0


From a06e3644fe1d0c7684edf7b0d3d439a2d1545c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 34/60] fix: keep the condition of a loop that is followed by
 assignments

---
 .../structured_control_flow/condition_elimination.cpp     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
index 5d5e3c1..cd55441 100644
--- a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
@@ -27,6 +27,14 @@ bool ConditionElimination::eliminate_condition(
         return false;
     }
 
+    // Assignments after the loop are only executed if the condition holds
+    // (assignments to the indvar are never read)
+    for (auto& assignment : branch_root.at(0).second.assignments()) {
+        if (!symbolic::eq(assignment.first, loop_indvar)) {
+            return false;
+        }
+    }
+
     // If loop condition == true => condition == true && condition == false => loop condition == false
     auto loop_iter0_condition = symbolic::subs(loop_condition, loop_indvar, loop_init);
     if (symbolic::eq(loop_iter0_condition, branch_condition)) {
-- 
2.43.0


From 82cc95404a8ab7346c2cc375252d1b2dc5b0c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 35/60] fix: reverse propagation of a symbol that is used in
 between

---
 .../passes/symbolic/symbol_propagation.cpp    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index 62a2cd5..872a2b2 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -145,6 +145,26 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     continue;
                 }
 
+                // Criterion: LHS is not used between the writes and the assignment
+                bool lhs_used = false;
+                for (auto* write : {write1, write2}) {
+                    for (auto& user : users.all_uses_between(*write, *read)) {
+                        if (user->container() == lhs->get_name() && user->element() != transition_lhs) {
+                            lhs_used = true;
+                        }
+                    }
+                }
+                for (auto* transition : {transition1, transition2, transition_lhs}) {
+                    for (auto& assign_entry : transition->assignments()) {
+                        if (!symbolic::eq(assign_entry.first, rhs) && symbolic::uses(assign_entry.second, lhs)) {
+                            lhs_used = true;
+                        }
+                    }
+                }
+                if (lhs_used) {
+                    continue;
+                }
+
                 auto rhs1 = transition1->assignments().at(rhs);
                 if (symbolic::uses(rhs1, lhs)) {
                     if (!symbolic::eq(rhs1, lhs)) {
-- 
2.43.0


From 075cb87368f04cea60f79f24115c2c21e152b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 36/60] fix: SymbolPropagation does not miss modifications that
 reach the read via the back edge of a loop

---
 .../passes/symbolic/symbol_propagation.cpp    | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index 872a2b2..b891973 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -225,23 +225,18 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
 
                 auto rhs_modified = rhs;
 
-                // Find dangerous users between write and read
+                // Find dangerous users between write and read (also via the back edges of loops)
+                std::unordered_set<analysis::User*> users_between;
+                bool has_users_between = false;
                 auto is_dangerous = [&](analysis::User* user) {
                     if (user == write || user == read) {
                         return false;
                     }
-
-                    // Criterion: RHS must dominate modification
-                    if (!dominance_analysis.dominates(*write, *user)) {
-                        return false;
-                    }
-
-                    // Criterion: Modification must dominate read
-                    if (dominance_analysis.dominates(*read, *user)) {
-                        return false;
+                    if (!has_users_between) {
+                        users_between = users.all_uses_between(*write, *read);
+                        has_users_between = true;
                     }
-
-                    return true;
+                    return users_between.contains(user);
                 };
                 std::unordered_set<std::string> dangerous_users;
                 for (const auto& sym : rhs_symbols) {
-- 
2.43.0


From b79cfdf72263fecae0b34f37e24cd3168bacb743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 37/60] fix: For2Map keeps loops that carry a moved pointer
 between iterations

---
 .../structured_control_flow/for2map.cpp       | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 89f91b3..80f7219 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/passes/structured_control_flow/for2map.h"
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
@@ -170,7 +171,32 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // d. indvar not used after for
+    // d. Moved pointers must not be carried between iterations
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto body_moves = body_users.moves();
+    for (auto& move : body_moves) {
+        auto& container = move->container();
+        if (locals.find(container) == locals.end()) {
+            return false;
+        }
+        for (auto& use : body_users.uses(container)) {
+            if (use->use() == analysis::Use::MOVE) {
+                continue;
+            }
+            bool moved_before = false;
+            for (auto& other : body_moves) {
+                if (other->container() == container && dominance_analysis.dominates(*other, *use)) {
+                    moved_before = true;
+                    break;
+                }
+            }
+            if (!moved_before) {
+                return false;
+            }
+        }
+    }
+
+    // e. indvar not used after for
     if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
         return false;
     }
-- 
2.43.0


From 179c580c1ce1c493277d204feadeb87caf673675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 38/60] fix: copied library nodes keep their implementation
 type

---
 sdfg/include/sdfg/builder/structured_sdfg_builder.h | 4 ++++
 sdfg/src/builder/structured_sdfg_builder.cpp        | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdfg/include/sdfg/builder/structured_sdfg_builder.h b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
index ed15b46..f953c8c 100644
--- a/sdfg/include/sdfg/builder/structured_sdfg_builder.h
+++ b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
@@ -487,6 +487,10 @@ public:
         auto& dataflow = block.dataflow();
         auto vertex = boost::add_vertex(dataflow.graph_);
         auto node_clone = node.clone(this->new_element_id(), vertex, dataflow);
+        if (auto lib_node = dynamic_cast<const data_flow::LibraryNode*>(&node)) {
+            // The implementation may have been selected after construction
+            static_cast<data_flow::LibraryNode&>(*node_clone).implementation_type() = lib_node->implementation_type();
+        }
         auto res = dataflow.nodes_.insert({vertex, std::move(node_clone)});
         return *res.first->second;
     };
diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index 6e20e78..4fec4db 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -1599,9 +1599,8 @@ void StructuredSDFGBuilder::add_dataflow(const data_flow::DataFlowGraph& from, B
 
     std::unordered_map<graph::Vertex, graph::Vertex> node_mapping;
     for (auto& entry : from.nodes_) {
-        auto vertex = boost::add_vertex(to_dataflow.graph_);
-        to_dataflow.nodes_.insert({vertex, entry.second->clone(this->new_element_id(), vertex, to_dataflow)});
-        node_mapping.insert({entry.first, vertex});
+        auto& copy = this->copy_node(to, *entry.second);
+        node_mapping.insert({entry.first, copy.vertex()});
     }
 
     for (auto& entry : from.edges_) {
-- 
2.43.0


From 8a01b9939f841e28b0eaa78e0b79c2a6a30ec8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 39/60] fix: do not append the unwind output of an invoke node
 twice

---
 sdfg/src/data_flow/library_nodes/invoke_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/invoke_node.cpp b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
index 969510e..44bd967 100644
--- a/sdfg/src/data_flow/library_nodes/invoke_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
@@ -24,7 +24,10 @@ InvokeNode::InvokeNode(
           data_flow::ImplementationType_NONE
       ),
       callee_name_(callee_name) {
-    this->outputs_.push_back("_unwind"); // Add unwind output
+    // Add unwind output, a copied or deserialized node already has it
+    if (this->outputs_.empty() || this->outputs_.back() != "_unwind") {
+        this->outputs_.push_back("_unwind");
+    }
 }
 
 const std::string& InvokeNode::callee_name() const { return this->callee_name_; }
-- 
2.43.0


From 1fdc98d936e6048fe8b876cdbcabb9bc2eee1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 40/60] fix: assignment of a schedule type copies its category

---
 sdfg/include/sdfg/structured_control_flow/map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdfg/include/sdfg/structured_control_flow/map.h b/sdfg/include/sdfg/structured_control_flow/map.h
index 8771006..fb3652c 100644
--- a/sdfg/include/sdfg/structured_control_flow/map.h
+++ b/sdfg/include/sdfg/structured_control_flow/map.h
@@ -70,6 +70,7 @@ public:
 
     void operator=(const ScheduleType& rhs) {
         value_ = rhs.value_;
+        category_ = rhs.category_;
         properties_.clear();
         for (const auto& entry : rhs.properties_) {
             properties_.insert(entry);
-- 
2.43.0


From ae4a0d787f68376795df46b0a755c72259aa1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 41/60] fix: register the serializer of the tensor cast node

---
 sdfg/src/serializer/json_serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..32ad1bd 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -1379,6 +1379,10 @@ void register_default_serializers() {
         .register_library_node_serializer(math::tensor::LibraryNodeType_Add.value(), []() {
             return std::make_unique<math::tensor::AddNodeSerializer>();
         });
+    LibraryNodeSerializerRegistry::instance()
+        .register_library_node_serializer(math::tensor::LibraryNodeType_Cast.value(), []() {
+            return std::make_unique<math::tensor::CastNodeSerializer>();
+        });
     LibraryNodeSerializerRegistry::instance()
         .register_library_node_serializer(math::tensor::LibraryNodeType_Div.value(), []() {
             return std::make_unique<math::tensor::DivNodeSerializer>();
-- 
2.43.0


From da3c51c46b9d6b0ac9bcb147b9ec31621ef4df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 42/60] fix: barrier nodes keep their debug info when
 deserialized

---
 sdfg/src/data_flow/library_nodes/barrier_local_node.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
index b2d590f..ccb3493 100644
--- a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
@@ -47,7 +47,14 @@ data_flow::LibraryNode& BarrierLocalNodeSerializer::deserialize(
     if (code != data_flow::LibraryNodeType_BarrierLocal.value()) {
         throw std::runtime_error("Invalid library node code");
     }
-    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, DebugInfo());
+
+    DebugInfo debug_info;
+    if (j.contains("debug_info")) {
+        sdfg::serializer::JSONSerializer serializer;
+        debug_info = serializer.json_to_debug_info(j.at("debug_info"));
+    }
+
+    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, debug_info);
 };
 
 BarrierLocalNodeDispatcher::BarrierLocalNodeDispatcher(
-- 
2.43.0


From 2c36ec1a4aa3b9b33d06aa382a4c2f338998e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 43/60] fix: ordered comparisons of floating point values in
 generated code are false for NaN

---
 .../src/codegen/language_extensions/c_language_extension.cpp | 5 +++--
 .../codegen/language_extensions/cpp_language_extension.cpp   | 5 +++--
 .../codegen/language_extensions/cuda_language_extension.cpp  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..1e8d00b 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -222,7 +223,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..07b5951 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -216,7 +217,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..9e0b2d4 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -232,7 +233,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From edb6ab243cf7d831d78d80051f77a70a2f5de7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 44/60] fix: LoopDistribute keeps loops whose parts access
 written memory through different pointers

---
 sdfg/src/transformations/loop_distribute.cpp | 48 ++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/sdfg/src/transformations/loop_distribute.cpp b/sdfg/src/transformations/loop_distribute.cpp
index 5ae7046..7e6dc8c 100644
--- a/sdfg/src/transformations/loop_distribute.cpp
+++ b/sdfg/src/transformations/loop_distribute.cpp
@@ -1,7 +1,13 @@
 #include "sdfg/transformations/loop_distribute.h"
 
+#include <list>
+#include <string>
+#include <unordered_map>
+#include <unordered_set>
+
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
 
 namespace sdfg {
@@ -96,6 +102,48 @@ bool LoopDistribute::can_be_applied(builder::StructuredSDFGBuilder& builder, ana
         return false;
     }
 
+    // Criterion: Child and remaining body do not access written memory through different pointers
+    std::unordered_map<std::string, std::unordered_set<std::string>> pointers;
+    for (auto& move : users.moves()) {
+        auto move_node = dynamic_cast<const data_flow::AccessNode*>(move->element());
+        if (!move_node) {
+            continue;
+        }
+        for (auto& edge : move_node->get_parent().in_edges(*move_node)) {
+            auto move_src = dynamic_cast<const data_flow::AccessNode*>(&edge.src());
+            if (!move_src || dynamic_cast<const data_flow::ConstantNode*>(move_src) ||
+                edge.type() != data_flow::MemletType::Reference) {
+                continue;
+            }
+            pointers[move->container()].insert(move_src->data());
+            pointers[move_src->data()].insert(move->container());
+        }
+    }
+    analysis::UsersView body_users(users, body);
+    for (auto& use : child_users.uses()) {
+        if (!body_users.moves(use->container()).empty()) {
+            return false;
+        }
+        std::unordered_set<std::string> aliases = {use->container()};
+        std::list<std::string> alias_queue = {use->container()};
+        while (!alias_queue.empty()) {
+            auto alias = alias_queue.front();
+            alias_queue.pop_front();
+            for (auto& pointer : pointers[alias]) {
+                if (aliases.insert(pointer).second) {
+                    alias_queue.push_back(pointer);
+                }
+            }
+        }
+        aliases.erase(use->container());
+        for (auto& alias : aliases) {
+            bool written = use->use() == analysis::Use::WRITE || !body_users.writes(alias).empty();
+            if (written && !body_users.uses(alias).empty()) {
+                return false;
+            }
+        }
+    }
+
     // Check dependencies
     for (auto& dep : dependencies) {
         auto& container = dep.first;
-- 
2.43.0


From a2061dd5906c428f85c0b0e1206c2126ad7ca9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 45/60] fix: bound zext_i64 and trunc_i32 by name, not every
 function symbol

---
 sdfg/src/symbolic/extreme_values.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sdfg/src/symbolic/extreme_values.cpp b/sdfg/src/symbolic/extreme_values.cpp
index 9e6adfd..e4120f6 100644
--- a/sdfg/src/symbolic/extreme_values.cpp
+++ b/sdfg/src/symbolic/extreme_values.cpp
@@ -6,6 +6,13 @@ namespace sdfg {
 namespace symbolic {
 
 size_t MAX_DEPTH = 100;
+
+// All function symbols share one type code: only the name tells them apart
+static bool is_function(const Expression& expr, const std::string& name) {
+    return SymEngine::is_a<SymEngine::FunctionSymbol>(*expr) &&
+           SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_name() == name;
+}
+
 Expression minimum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 Expression maximum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 
@@ -23,7 +30,7 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
         return expr;
     } else if (SymEngine::is_a<SymEngine::Infty>(*expr)) {
         return expr;
-    } else if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
+    } else if (is_function(expr, "zext_i64")) {
         auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
         auto min_arg = minimum(zext->get_args()[0], parameters, assumptions, depth + 1);
         if (min_arg == SymEngine::null) {
@@ -31,7 +38,7 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
         } else {
             return symbolic::zext_i64(min_arg);
         }
-    } else if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
+    } else if (is_function(expr, "trunc_i32")) {
         auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
         auto min_arg = minimum(trunc->get_args()[0], parameters, assumptions, depth + 1);
         if (min_arg == SymEngine::null) {
@@ -179,7 +186,7 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
         return SymEngine::null;
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
+    if (is_function(expr, "zext_i64")) {
         auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
         auto max_arg = maximum(zext->get_args()[0], parameters, assumptions, depth + 1);
         if (max_arg == SymEngine::null) {
@@ -188,7 +195,7 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
             return symbolic::zext_i64(max_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
+    if (is_function(expr, "trunc_i32")) {
         auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
         auto max_arg = maximum(trunc->get_args()[0], parameters, assumptions, depth + 1);
         if (max_arg == SymEngine::null) {
@@ -335,7 +342,7 @@ Expression minimum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
+    if (is_function(expr, "zext_i64")) {
         auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
         auto min_arg = minimum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (min_arg == SymEngine::null) {
@@ -344,7 +351,7 @@ Expression minimum_new(
             return symbolic::zext_i64(min_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
+    if (is_function(expr, "trunc_i32")) {
         auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
         auto min_arg = minimum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (min_arg == SymEngine::null) {
@@ -503,7 +510,7 @@ Expression maximum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
+    if (is_function(expr, "zext_i64")) {
         auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
         auto max_arg = maximum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (max_arg == SymEngine::null) {
@@ -512,7 +519,7 @@ Expression maximum_new(
             return symbolic::zext_i64(max_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
+    if (is_function(expr, "trunc_i32")) {
         auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
         auto max_arg = maximum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (max_arg == SymEngine::null) {
-- 
2.43.0


From acaf4dcecb2f7f7cfbe955851f1efbdcc763d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 46/60] fix: reject polynomials whose coefficients use a
 generator

---
 sdfg/src/symbolic/polynomials.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/polynomials.cpp b/sdfg/src/symbolic/polynomials.cpp
index e5c8cb7..98d20c7 100644
--- a/sdfg/src/symbolic/polynomials.cpp
+++ b/sdfg/src/symbolic/polynomials.cpp
@@ -11,7 +11,16 @@ Polynomial polynomial(const Expression expr, SymbolVec& symbols) {
         for (auto& symbol : symbols) {
             gens.insert(symbol);
         }
-        return SymEngine::from_basic<SymEngine::MExprPoly>(expr, gens);
+        auto poly = SymEngine::from_basic<SymEngine::MExprPoly>(expr, gens);
+        // Coefficients, e.g. idiv(i, 2), must not hide a generator
+        for (auto& [exponents, coeff] : poly->get_poly().get_dict()) {
+            for (auto& symbol : symbols) {
+                if (symbolic::uses(coeff, symbol)) {
+                    return SymEngine::null;
+                }
+            }
+        }
+        return poly;
     } catch (SymEngine::SymEngineException& e) {
         return SymEngine::null;
     }
-- 
2.43.0


From 55390cfaa076c3051ff857d3ba0941524ef4ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 47/60] fix: divide_ceil must not build ceiling() of symbolic
 quotients

---
 sdfg/src/symbolic/symbolic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/symbolic/symbolic.cpp b/sdfg/src/symbolic/symbolic.cpp
index c6675d9..6c0aaed 100644
--- a/sdfg/src/symbolic/symbolic.cpp
+++ b/sdfg/src/symbolic/symbolic.cpp
@@ -55,8 +55,8 @@ bool is_nv(const Symbol symbol) {
 
 Expression divide_ceil(const Expression dividend, const Expression divisor) {
     Expression result;
-    SymEngine::set_basic params = SymEngine::free_symbols(*dividend);
-    if (params.empty()) { // will simplify to a statically known result, ok to use ceiling
+    if (SymEngine::is_a<SymEngine::Integer>(*dividend) && SymEngine::is_a<SymEngine::Integer>(*divisor)) {
+        // will simplify to a statically known result, ok to use ceiling
         result = SymEngine::ceiling(SymEngine::div(dividend, divisor));
     } else { // if we know it will get generated, do integer math to cause ceiling a runtime without using float
         result = symbolic::div(SymEngine::add(dividend, SymEngine::sub(divisor, one())), divisor);
-- 
2.43.0


From c1951d77f86f8677f41d4957032ab41405f6f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 48/60] fix: a power is only monotonic in the symbol that is
 its base

---
 sdfg/src/symbolic/maps.cpp   | 3 +++
 sdfg/src/symbolic/series.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index 8f22a87..d45ec94 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -59,6 +59,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index 7c7fae3..b6d7576 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -83,6 +83,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
-- 
2.43.0


From d36d8c627d78f87f9b72b88a4528d96e323372e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 49/60] fix: an update is only contiguous when every step is
 exactly one

---
 sdfg/src/symbolic/series.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index b6d7576..9a531b2 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -54,22 +54,8 @@ bool is_monotonic_affine(const Expression expr, const Symbol sym, const Assumpti
 }
 
 bool is_contiguous_affine(const Expression expr, const Symbol sym, const Assumptions& assums) {
-    auto [success, coeffs] = affine_int_coeffs(expr, sym, assums);
-    if (!success) {
-        return false;
-    }
-    auto [mul_int, offset_int] = coeffs;
-    try {
-        signed long mul_value = mul_int->as_int();
-        signed long offset_value = offset_int->as_int();
-        if (mul_value == 1 && offset_value == 1) {
-            return true;
-        }
-    } catch (SymEngine::SymEngineException&) {
-        return false;
-    }
-
-    return false;
+    // Bounds of the coefficients are not enough: each step must be exactly one
+    return symbolic::eq(symbolic::expand(symbolic::sub(expr, sym)), symbolic::one());
 }
 
 bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions& assums) {
-- 
2.43.0


From f5e0c80b3ae2239dfe3a0437338e6f070b8f2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 50/60] fix: monotonic disjointness must hold under both
 assumptions

---
 sdfg/src/symbolic/maps.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index d45ec94..642629e 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -227,8 +227,6 @@ bool is_disjoint_monotonic(
     const Assumptions& assums1,
     const Assumptions& assums2
 ) {
-    // TODO: Handle assumptions1 and assumptions2
-
     for (size_t i = 0; i < expr1.size(); i++) {
         auto& dim1 = expr1[i];
         if (expr2.size() <= i) {
@@ -248,7 +246,7 @@ bool is_disjoint_monotonic(
         // Collect all non-constant symbols
         bool can_analyze = true;
         for (auto& sym : syms) {
-            if (!assums1.at(sym).constant()) {
+            if (!assums1.at(sym).constant() || !assums2.at(sym).constant()) {
                 if (sym->get_name() != indvar->get_name()) {
                     can_analyze = false;
                     break;
@@ -260,7 +258,7 @@ bool is_disjoint_monotonic(
         }
 
         // Check if both dimensions are monotonic in non-constant symbols
-        if (is_monotonic(dim1, indvar, assums1)) {
+        if (is_monotonic(dim1, indvar, assums1) && is_monotonic(dim2, indvar, assums2)) {
             return true;
         }
     }
-- 
2.43.0


From 5cb36a6dce3d8a173aeec1267a7295ebd8a5bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 51/60] fix: step constraints of the first map use its own
 lower bound

---
 sdfg/src/symbolic/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index bb656ad..ed2ba86 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -385,7 +385,7 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
+        auto lb = assums1.at(sym).lower_bound_deprecated();
         if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
-- 
2.43.0


From 2d22ae2744168136c1e25464913ab1fd3eca4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 52/60] fix: print idiv and iabs to isl with their own rounding
 and sign

---
 sdfg/src/symbolic/utils.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index ed2ba86..4d4cd40 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -14,20 +14,27 @@
 namespace sdfg {
 namespace symbolic {
 
-// ISL-compatible printer that converts idiv to floord
+// ISL-compatible printer that expresses idiv through floord
 class ISLSymbolicPrinter : public SymEngine::BaseVisitor<ISLSymbolicPrinter, SymEngine::CodePrinter> {
 public:
     using SymEngine::CodePrinter::apply;
     using SymEngine::CodePrinter::bvisit;
     using SymEngine::CodePrinter::str_;
 
+    static bool is_positive_integer(const Expression& expr) {
+        return SymEngine::is_a<SymEngine::Integer>(*expr) &&
+               SymEngine::rcp_static_cast<const SymEngine::Integer>(expr)->is_positive();
+    }
+
     void bvisit(const SymEngine::FunctionSymbol& x) {
-        if (x.get_name() == "idiv") {
-            // ISL uses floord(a, b) for floor division
-            str_ = "floord(" + apply(x.get_args()[0]) + ", " + apply(x.get_args()[1]) + ")";
+        if (x.get_name() == "idiv" && is_positive_integer(x.get_args()[1])) {
+            // idiv truncates toward zero, ISL only has floor division
+            auto lhs = apply(x.get_args()[0]);
+            auto rhs = apply(x.get_args()[1]);
+            str_ = "(max(floord(" + lhs + ", " + rhs + "), 0) + min(-floord(-(" + lhs + "), " + rhs + "), 0))";
         } else if (x.get_name() == "iabs") {
-            // ISL doesn't support abs directly, but we can express it
-            str_ = apply(x.get_args()[0]); // Simplify: assume non-negative for ISL constraints
+            auto arg = apply(x.get_args()[0]);
+            str_ = "max(" + arg + ", -(" + arg + "))";
         } else {
             // Unknown function - print as-is and let ISL reject it during parsing
             std::ostringstream ss;
-- 
2.43.0


From db37ce9f9834272146880b6bc12f38f21e3bc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 53/60] fix: symbol evolution skips updates that are no
 polynomial

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 55a52c2..c76efa6 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -91,6 +91,9 @@ symbolic::Expression scalar_evolution(
     // Example: sum = 0 (init) -> sum = sum + 5 (update) => sum = 5 * (i - init) / stride + 0
     symbolic::SymbolVec gens = {sym};
     auto poly = symbolic::polynomial(sym_update, gens);
+    if (poly == SymEngine::null) {
+        return SymEngine::null;
+    }
     auto coeffs = symbolic::affine_coefficients(poly, gens);
     if (coeffs.empty()) {
         return SymEngine::null;
-- 
2.43.0


From 72cfac9fcf973f70f7f964d674a011cdd736a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 54/60] fix: scalar operands of elementwise tensor operations
 take no subset

---
 .../math/tensor/elementwise_ops/add_node.cpp           |  8 ++++++--
 .../math/tensor/elementwise_ops/cmath_node.cpp         |  2 +-
 .../math/tensor/elementwise_ops/div_node.cpp           |  8 ++++++--
 .../math/tensor/elementwise_ops/maximum_node.cpp       | 10 ++++++----
 .../math/tensor/elementwise_ops/minimum_node.cpp       | 10 ++++++----
 .../math/tensor/elementwise_ops/mul_node.cpp           |  8 ++++++--
 .../math/tensor/elementwise_ops/pow_node.cpp           |  6 ++++--
 .../math/tensor/elementwise_ops/sub_node.cpp           |  8 ++++++--
 .../math/tensor/elementwise_ops/tasklet_node.cpp       |  2 +-
 sdfg/src/types/utils.cpp                               |  4 ++++
 10 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/add_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/add_node.cpp
index 609b13b..77b167c 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/add_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/add_node.cpp
@@ -50,7 +50,9 @@ bool AddNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_a.primitive_type());
         auto& input_node_a = builder.add_constant(code_block, input_name_a, const_type);
-        builder.add_computational_memlet(code_block, input_node_a, tasklet, "_in1", subset, input_type_a);
+        builder.add_computational_memlet(
+            code_block, input_node_a, tasklet, "_in1", input_type_a.is_scalar() ? data_flow::Subset{} : subset, input_type_a
+        );
     }
 
     if (builder.subject().exists(input_name_b)) {
@@ -63,7 +65,9 @@ bool AddNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
         auto& input_node_b = builder.add_constant(code_block, input_name_b, const_type);
-        builder.add_computational_memlet(code_block, input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(
+            code_block, input_node_b, tasklet, "_in2", input_type_b.is_scalar() ? data_flow::Subset{} : subset, input_type_b
+        );
     }
 
     return true;
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
index 1ca5efe..153b7b6 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
@@ -230,7 +230,7 @@ bool CMathTensorNode::expand(builder::StructuredSDFGBuilder& builder, analysis::
             container_map.insert({data, new_access_node});
         }
         const auto& iedge_base_type = static_cast<const types::Tensor&>(iedges[i]->base_type());
-        if (builder.subject().exists(data) && iedge_base_type.is_scalar()) {
+        if (iedge_base_type.is_scalar()) {
             builder.add_computational_memlet(
                 code_block, *new_access_node, libnode, libnode.input(i), {}, iedge_base_type, iedges[i]->debug_info()
             );
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
index d0be0ef..531a94c 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
@@ -57,7 +57,9 @@ bool DivNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_a.primitive_type());
         auto& input_node_a = builder.add_constant(code_block, input_name_a, const_type);
-        builder.add_computational_memlet(code_block, input_node_a, tasklet, "_in1", subset, input_type_a);
+        builder.add_computational_memlet(
+            code_block, input_node_a, tasklet, "_in1", input_type_a.is_scalar() ? data_flow::Subset{} : subset, input_type_a
+        );
     }
 
     if (builder.subject().exists(input_name_b)) {
@@ -70,7 +72,9 @@ bool DivNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
         auto& input_node_b = builder.add_constant(code_block, input_name_b, const_type);
-        builder.add_computational_memlet(code_block, input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(
+            code_block, input_node_b, tasklet, "_in2", input_type_b.is_scalar() ? data_flow::Subset{} : subset, input_type_b
+        );
     }
 
     return true;
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
index 2ff22e7..fc8558b 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
@@ -47,6 +47,8 @@ bool MaximumNode::expand_operation(
         input_node_b = &builder.add_constant(code_block, input_name_b, const_type);
     }
     auto& output_node = builder.add_access(code_block, output_name);
+    const auto subset_a = input_type_a.is_scalar() ? data_flow::Subset{} : subset;
+    const auto subset_b = input_type_b.is_scalar() ? data_flow::Subset{} : subset;
 
     bool is_int = types::is_integer(input_type_a.primitive_type());
 
@@ -55,16 +57,16 @@ bool MaximumNode::expand_operation(
         auto tasklet_code = TensorNode::get_integer_minmax_tasklet(input_type_a.primitive_type(), true);
         auto& tasklet = builder.add_tasklet(code_block, tasklet_code, "_out", {"_in1", "_in2"});
 
-        builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset, input_type_a);
-        builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset_a, input_type_a);
+        builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset_b, input_type_b);
         builder.add_computational_memlet(code_block, tasklet, "_out", output_node, subset, output_type);
     } else {
         // Use intrinsics for floating-point types with correct suffix
         auto& node = builder.add_library_node<
             cmath::CMathNode>(code_block, this->debug_info(), cmath::CMathFunction::fmax, input_type_a.primitive_type());
 
-        builder.add_computational_memlet(code_block, *input_node_a, node, "_in1", subset, input_type_a, DebugInfo());
-        builder.add_computational_memlet(code_block, *input_node_b, node, "_in2", subset, input_type_b, DebugInfo());
+        builder.add_computational_memlet(code_block, *input_node_a, node, "_in1", subset_a, input_type_a, DebugInfo());
+        builder.add_computational_memlet(code_block, *input_node_b, node, "_in2", subset_b, input_type_b, DebugInfo());
         builder.add_computational_memlet(code_block, node, "_out", output_node, subset, output_type, DebugInfo());
     }
 
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
index c6f820a..f2b0969 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
@@ -47,6 +47,8 @@ bool MinimumNode::expand_operation(
         input_node_b = &builder.add_constant(code_block, input_name_b, const_type);
     }
     auto& output_node = builder.add_access(code_block, output_name);
+    const auto subset_a = input_type_a.is_scalar() ? data_flow::Subset{} : subset;
+    const auto subset_b = input_type_b.is_scalar() ? data_flow::Subset{} : subset;
 
     bool is_int = types::is_integer(input_type_a.primitive_type());
 
@@ -55,16 +57,16 @@ bool MinimumNode::expand_operation(
         auto tasklet_code = TensorNode::get_integer_minmax_tasklet(input_type_a.primitive_type(), false);
         auto& tasklet = builder.add_tasklet(code_block, tasklet_code, "_out", {"_in1", "_in2"});
 
-        builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset, input_type_a);
-        builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset_a, input_type_a);
+        builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset_b, input_type_b);
         builder.add_computational_memlet(code_block, tasklet, "_out", output_node, subset, output_type);
     } else {
         // Use intrinsics for floating-point types with correct suffix
         auto& node = builder.add_library_node<
             cmath::CMathNode>(code_block, this->debug_info(), cmath::CMathFunction::fmin, input_type_a.primitive_type());
 
-        builder.add_computational_memlet(code_block, *input_node_a, node, "_in1", subset, input_type_a, DebugInfo());
-        builder.add_computational_memlet(code_block, *input_node_b, node, "_in2", subset, input_type_b, DebugInfo());
+        builder.add_computational_memlet(code_block, *input_node_a, node, "_in1", subset_a, input_type_a, DebugInfo());
+        builder.add_computational_memlet(code_block, *input_node_b, node, "_in2", subset_b, input_type_b, DebugInfo());
         builder.add_computational_memlet(code_block, node, "_out", output_node, subset, output_type, DebugInfo());
     }
 
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/mul_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/mul_node.cpp
index ed2d3ef..7d479a9 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/mul_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/mul_node.cpp
@@ -50,7 +50,9 @@ bool MulNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_a.primitive_type());
         auto& input_node_a = builder.add_constant(code_block, input_name_a, const_type);
-        builder.add_computational_memlet(code_block, input_node_a, tasklet, "_in1", subset, input_type_a);
+        builder.add_computational_memlet(
+            code_block, input_node_a, tasklet, "_in1", input_type_a.is_scalar() ? data_flow::Subset{} : subset, input_type_a
+        );
     }
 
     if (builder.subject().exists(input_name_b)) {
@@ -63,7 +65,9 @@ bool MulNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
         auto& input_node_b = builder.add_constant(code_block, input_name_b, const_type);
-        builder.add_computational_memlet(code_block, input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(
+            code_block, input_node_b, tasklet, "_in2", input_type_b.is_scalar() ? data_flow::Subset{} : subset, input_type_b
+        );
     }
 
     return true;
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
index 2e608e0..92e1bc7 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
@@ -48,13 +48,15 @@ bool PowNode::expand_operation(
         input_node_b = &builder.add_constant(code_block, input_name_b, const_type);
     }
     auto& output_node = builder.add_access(code_block, output_name);
+    const auto subset_a = input_type_a.is_scalar() ? data_flow::Subset{} : subset;
+    const auto subset_b = input_type_b.is_scalar() ? data_flow::Subset{} : subset;
 
     auto& tasklet = builder.add_library_node<math::cmath::CMathNode>(
         code_block, code_block.debug_info(), cmath::CMathFunction::pow, input_type_a.primitive_type()
     );
 
-    builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset, input_type_a);
-    builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset, input_type_b);
+    builder.add_computational_memlet(code_block, *input_node_a, tasklet, "_in1", subset_a, input_type_a);
+    builder.add_computational_memlet(code_block, *input_node_b, tasklet, "_in2", subset_b, input_type_b);
     builder.add_computational_memlet(code_block, tasklet, "_out", output_node, subset, output_type);
 
     return true;
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/sub_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/sub_node.cpp
index 08f1ae1..e122acb 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/sub_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/sub_node.cpp
@@ -50,7 +50,9 @@ bool SubNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_a.primitive_type());
         auto& input_node_a = builder.add_constant(code_block, input_name_a, const_type);
-        builder.add_computational_memlet(code_block, input_node_a, tasklet, "_in1", subset, input_type_a);
+        builder.add_computational_memlet(
+            code_block, input_node_a, tasklet, "_in1", input_type_a.is_scalar() ? data_flow::Subset{} : subset, input_type_a
+        );
     }
 
     if (builder.subject().exists(input_name_b)) {
@@ -63,7 +65,9 @@ bool SubNode::expand_operation(
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
         auto& input_node_b = builder.add_constant(code_block, input_name_b, const_type);
-        builder.add_computational_memlet(code_block, input_node_b, tasklet, "_in2", subset, input_type_b);
+        builder.add_computational_memlet(
+            code_block, input_node_b, tasklet, "_in2", input_type_b.is_scalar() ? data_flow::Subset{} : subset, input_type_b
+        );
     }
 
     return true;
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.cpp
index 162d85f..1bf66cf 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.cpp
@@ -227,7 +227,7 @@ bool TaskletTensorNode::expand(builder::StructuredSDFGBuilder& builder, analysis
             container_map.insert({data, new_access_node});
         }
         const auto& iedge_base_type = static_cast<const types::Tensor&>(iedges[i]->base_type());
-        if (builder.subject().exists(data) && iedge_base_type.is_scalar()) {
+        if (iedge_base_type.is_scalar()) {
             builder.add_computational_memlet(
                 code_block, *new_access_node, tasklet, this->input(i), {}, iedge_base_type, iedges[i]->debug_info()
             );
diff --git a/sdfg/src/types/utils.cpp b/sdfg/src/types/utils.cpp
index 75786be..d057cce 100644
--- a/sdfg/src/types/utils.cpp
+++ b/sdfg/src/types/utils.cpp
@@ -70,6 +70,10 @@ infer_type_internal(const sdfg::Function& function, const types::IType& type, co
 std::unique_ptr<types::IType>
 infer_type(const sdfg::Function& function, const types::IType& type, const data_flow::Subset& subset) {
     if (subset.empty()) {
+        if (type.type_id() == TypeID::Tensor && static_cast<const types::Tensor&>(type).is_scalar()) {
+            // A tensor without dimensions is accessed without a subset
+            return static_cast<const types::Tensor&>(type).element_type().clone();
+        }
         return type.clone();
     }
 
-- 
2.43.0


From 0181ebcc93add2a6fcffb3213f1491efb159051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 55/60] fix: mean divides by a count of the element type

---
 .../math/tensor/reduce_ops/mean_node.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/mean_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/mean_node.cpp
index 9b03396..54ebdb8 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/mean_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/mean_node.cpp
@@ -101,6 +101,21 @@ bool MeanNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     auto& count_block =
         builder.add_block_before(parent, block, {{symbolic::symbol(count_container), count_expr}}, this->debug_info());
 
+    // Convert Count to the element type
+    auto divisor_container = builder.find_new_name("_mean_divisor");
+    types::Scalar divisor_type(out_edge.base_type().primitive_type());
+    builder.add_container(divisor_container, divisor_type);
+    auto& divisor_block = builder.add_block_before(parent, block, {}, this->debug_info());
+    auto& count_node = builder.add_access(divisor_block, count_container, this->debug_info());
+    auto& divisor_node = builder.add_access(divisor_block, divisor_container, this->debug_info());
+    auto& cast_tasklet =
+        builder.add_tasklet(divisor_block, data_flow::TaskletCode::assign, "_out", {"_in"}, this->debug_info());
+    builder.add_computational_memlet(
+        divisor_block, count_node, cast_tasklet, "_in", {}, types::Scalar(types::PrimitiveType::Int64), this->debug_info()
+    );
+    builder
+        .add_computational_memlet(divisor_block, cast_tasklet, "_out", divisor_node, {}, divisor_type, this->debug_info());
+
     // Create DivNode
     auto& div_block = builder.add_block_before(parent, block, transition.assignments(), this->debug_info());
     auto& div_node = builder.add_library_node<DivNode>(div_block, this->debug_info(), output_shape);
@@ -112,7 +127,7 @@ bool MeanNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
 
     // Connect Count -> Div (B)
     types::Tensor scalar_tensor(out_edge.base_type().primitive_type(), {});
-    auto& div_count_node = builder.add_access(div_block, count_container, this->debug_info());
+    auto& div_count_node = builder.add_access(div_block, divisor_container, this->debug_info());
     builder.add_computational_memlet(div_block, div_count_node, div_node, "B", {}, scalar_tensor, this->debug_info());
 
     // Connect Div -> Output (C)
-- 
2.43.0


From 7e2120c47e8f60a6b66c46c8fe39e2bbbf6bc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 56/60] fix: map fusion only recomputes elements the first map
 produces

---
 sdfg/src/transformations/map_fusion.cpp | 99 +++++++++++++++++++++++++
 1 file changed, 99 insertions(+)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 06dcd77..ed87b9e 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -1,10 +1,13 @@
 #include "sdfg/transformations/map_fusion.h"
 
 #include "sdfg/analysis/arguments_analysis.h"
+#include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 #include "sdfg/control_flow/interstate_edge.h"
 #include "sdfg/data_flow/data_flow_graph.h"
+#include "sdfg/data_flow/library_nodes/stdlib/malloc.h"
 #include "sdfg/structured_control_flow/block.h"
 #include "sdfg/structured_control_flow/for.h"
 #include "sdfg/symbolic/polynomials.h"
@@ -12,6 +15,85 @@
 namespace sdfg {
 namespace transformations {
 
+namespace {
+
+/// Whether the elements of the container have no value other than the one written at the given access node
+bool is_only_defined_by(
+    const data_flow::AccessNode& producer,
+    const std::string& container,
+    structured_control_flow::ControlFlowNode* scope,
+    builder::StructuredSDFGBuilder& builder,
+    analysis::AnalysisManager& analysis_manager
+) {
+    if (!builder.subject().is_transient(container)) {
+        return false;
+    }
+    auto& users = analysis_manager.get<analysis::Users>();
+    if (users.num_views(container) > 0) {
+        return false;
+    }
+    std::list<analysis::User*> definitions = users.writes(container);
+    for (auto* user : users.moves(container)) {
+        definitions.push_back(user);
+    }
+    for (auto* user : definitions) {
+        auto* access = dynamic_cast<data_flow::AccessNode*>(user->element());
+        if (access == nullptr) {
+            return false;
+        }
+        if (access == &producer) {
+            continue;
+        }
+        // Allocations do not define elements
+        for (auto& iedge : access->get_parent().in_edges(*access)) {
+            if (dynamic_cast<const stdlib::MallocNode*>(&iedge.src()) == nullptr) {
+                return false;
+            }
+        }
+    }
+
+    // Definitions of earlier iterations of a surrounding loop
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    while (scope != nullptr) {
+        if (dynamic_cast<const structured_control_flow::StructuredLoop*>(scope) != nullptr ||
+            dynamic_cast<const structured_control_flow::While*>(scope) != nullptr) {
+            return false;
+        }
+        scope = scope_analysis.parent_scope(scope);
+    }
+    return true;
+}
+
+/// Whether the first loop executes all iterations index_mapping(i), where i are the iterations of the second loop
+bool is_covered(
+    structured_control_flow::StructuredLoop& first_loop,
+    structured_control_flow::StructuredLoop& second_loop,
+    const symbolic::Expression index_mapping,
+    analysis::AnalysisManager& analysis_manager
+) {
+    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
+    auto first_bound = analysis::LoopAnalysis::canonical_bound(&first_loop, assumptions_analysis);
+    auto second_bound = analysis::LoopAnalysis::canonical_bound(&second_loop, assumptions_analysis);
+    if (first_bound == SymEngine::null || second_bound == SymEngine::null) {
+        return false;
+    }
+    auto shift = symbolic::expand(symbolic::sub(index_mapping, second_loop.indvar()));
+    if (!SymEngine::is_a<SymEngine::Integer>(*shift)) {
+        return false;
+    }
+    auto below = symbolic::expand(symbolic::sub(symbolic::add(second_loop.init(), shift), first_loop.init()));
+    auto above = symbolic::expand(symbolic::sub(first_bound, symbolic::add(second_bound, shift)));
+    for (auto& distance : {below, above}) {
+        if (!SymEngine::is_a<SymEngine::Integer>(*distance) ||
+            SymEngine::rcp_static_cast<const SymEngine::Integer>(distance)->is_negative()) {
+            return false;
+        }
+    }
+    return true;
+}
+
+} // namespace
+
 MapFusion::MapFusion(structured_control_flow::Map& first_map, structured_control_flow::StructuredLoop& second_loop)
     : first_map_(first_map), second_loop_(second_loop) {}
 
@@ -86,6 +168,14 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
         }
     }
 
+    // Criterion: The second loop must not overwrite what the first map reads (WAR),
+    // since the producer is recomputed after earlier iterations of the second loop
+    for (const auto& [name, arg] : second_args) {
+        if (arg.is_output && first_args.contains(name) && first_args.at(name).is_input) {
+            return false;
+        }
+    }
+
     std::unordered_set<std::string> fusion_containers;
     for (const auto& [name, arg] : second_args) {
         if (arg.is_input && first_outputs.contains(name)) {
@@ -110,6 +200,7 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
     for (const auto& container : fusion_containers) {
         // Find unique producer in first map (producer)
         data_flow::Memlet* producer_memlet = nullptr;
+        data_flow::AccessNode* producer_node = nullptr;
 
         for (auto& node : first_dataflow.nodes()) {
             auto* access = dynamic_cast<data_flow::AccessNode*>(&node);
@@ -127,6 +218,7 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                 return false;
             }
             producer_memlet = &iedge;
+            producer_node = access;
         }
         if (producer_memlet == nullptr) {
             return false;
@@ -191,6 +283,8 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
             }
         }
 
+        bool only_definition = is_only_defined_by(*producer_node, container, first_parent, builder, analysis_manager);
+
         // For each unique subset, compute index_mapping and create a FusionCandidate
         for (const auto& consumer_expr : unique_subsets) {
             // index_mapping = (consumer_expr - producer_constant) / first_coeff
@@ -230,6 +324,11 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                 return false;
             }
 
+            // Criterion: The first map must produce the element, unless it has no other value
+            if (!only_definition && !is_covered(first_map_, second_loop_, index_mapping, analysis_manager)) {
+                return false;
+            }
+
             // Store the fusion candidate
             FusionCandidate candidate;
             candidate.container = container;
-- 
2.43.0


From 1d64b70cb8812cba9d3c065c24237796f5ccfd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 57/60] fix: functions without a result return None

---
 python/docc/compiler/compiled_sdfg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/docc/compiler/compiled_sdfg.py b/python/docc/compiler/compiled_sdfg.py
index a03435c..d6e2267 100644
--- a/python/docc/compiler/compiled_sdfg.py
+++ b/python/docc/compiler/compiled_sdfg.py
@@ -75,7 +75,15 @@ class CompiledSDFG:
         self.func.argtypes = self.arg_types
 
         # Set up return type
-        self.func.restype = self._get_ctypes_type(sdfg.return_type)
+        return_type = sdfg.return_type
+        if (
+            isinstance(return_type, Scalar)
+            and return_type.primitive_type == PrimitiveType.Void
+        ):
+            # A void function leaves nothing in the return register
+            self.func.restype = None
+        else:
+            self.func.restype = self._get_ctypes_type(return_type)
 
     def _convert_to_python_syntax(self, expr_str):
         import re
-- 
2.43.0


From 7d7cc5566c38e7d4a193a1f43c8e546c0a50d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 58/60] fix: compiled functions are cached per memory layout

---
 python/docc/python/python_program.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index a18a5ef..aae0ae5 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -242,7 +242,18 @@ class PythonProgram(DoccProgram):
         mapping_sig = sorted(arg_shape_mapping.items())
         equiv_sig = sorted(shape_to_scalar.items())
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
-        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}"
+        # Size-1 dimensions and memory layouts are compiled into the tensor types
+        layout_sig = []
+        for arg in args:
+            if isinstance(arg, np.ndarray):
+                if arg.flags["C_CONTIGUOUS"]:
+                    layout = "C"
+                elif arg.flags["F_CONTIGUOUS"]:
+                    layout = "F"
+                else:
+                    layout = arg.strides
+                layout_sig.append((layout, tuple(d == 1 for d in arg.shape)))
+        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"
 
         if output_folder is None:
             filename = inspect.getsourcefile(self.func)
-- 
2.43.0


From 91004954d5846551a739a73bb241c24b2015c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 59/60] fix: floor division of integers and floats rounds down

---
 python/docc/python/ast_parser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 5f2c562..b99f5ac 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -274,10 +274,23 @@ class ASTParser(ast.NodeVisitor):
             else:
                 raise NotImplementedError(f"Array operation {op} not supported")
 
-        tmp_name = self.builder.find_new_name()
-
         left_is_int = self._is_int(left)
         right_is_int = self._is_int(right)
+
+        if op == "//":
+            # a // b == (a - a % b) / b, where a % b has the sign of b
+            left_name = ast.Name(id=left, ctx=ast.Load())
+            right_name = ast.Name(id=right, ctx=ast.Load())
+            rem = self.visit(ast.BinOp(left=left_name, op=ast.Mod(), right=right_name))
+            left = self.visit(
+                ast.BinOp(
+                    left=left_name,
+                    op=ast.Sub(),
+                    right=ast.Name(id=rem, ctx=ast.Load()),
+                )
+            )
+
+        tmp_name = self.builder.find_new_name()
         dtype = Scalar(PrimitiveType.Double)
         if left_is_int and right_is_int and op not in ["/", "**"]:
             dtype = Scalar(PrimitiveType.Int64)
-- 
2.43.0


From 120626da7425d18c1b3546dce2c0323bec5e4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 60/60] fix: unique ids skip names that are already taken

---
 python/docc/python/ast_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index b99f5ac..420b1cc 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -2583,6 +2583,11 @@ class ASTParser(ast.NodeVisitor):
 
     def _get_unique_id(self):
         self._unique_counter_ref[0] += 1
+        # find_new_name("_tmp_") draws from the same names
+        while self.builder and self.builder.exists(
+            f"_tmp_{self._unique_counter_ref[0]}"
+        ):
+            self._unique_counter_ref[0] += 1
         return self._unique_counter_ref[0]
 
     def _get_memlet_type_for_access(self, expr_str, subset):
-- 
2.43.0

