From 0c6c724326c49ff1d24a4ee83d1b68c5236c8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 01/14] fix: escape backslash and line feed in help texts

---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..3df8589 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write a help text, only backslash and line feed have to be escaped
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From 634bf6477b5897e9c5a95872a8f44370e1e559ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 02/14] fix: do not let the format flags of the stream alter
 serialized metrics

---
 core/src/text_serializer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 3df8589..09381bc 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -226,9 +226,12 @@ void TextSerializer::Serialize(std::ostream& out,
                                const std::vector<MetricFamily>& metrics) const {
   auto saved_locale = out.getloc();
   auto saved_precision = out.precision();
+  auto saved_flags = out.flags();
 
   out.imbue(std::locale::classic());
   out.precision(std::numeric_limits<double>::max_digits10 - 1);
+  out.flags(std::ios_base::dec);
+  out.width(0);
 
   for (auto& family : metrics) {
     SerializeFamily(out, family);
@@ -236,5 +239,6 @@ void TextSerializer::Serialize(std::ostream& out,
 
   out.imbue(saved_locale);
   out.precision(saved_precision);
+  out.flags(saved_flags);
 }
 }  // namespace prometheus
-- 
2.43.0


From 7fbd5e25af7735f5180a915edc3fa82a6267ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 03/14] fix: reject base64 input with data after the padding
 character

---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From 5d740615e93c80437f827b254c3079e586224a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 04/14] fix: encode job and label values that are dot segments
 of an URL

---
 push/src/detail/label_encoder.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..04e98d6 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <ostream>
+#include <string>
 
 #include "prometheus/detail/base64.h"
 
@@ -25,12 +26,18 @@ bool needsEncoding(char c) {
   }
   return true;
 }
+
+// HTTP clients remove these path segments (RFC 3986 section 5.2.4)
+bool isDotSegment(const std::string& value) {
+  return value == "." || value == "..";
+}
 }  // namespace
 
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (isDotSegment(label.second) ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From 67480088c869bc704705b03ee351e085e9ff5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 05/14] fix: keep replaced auth handlers alive for requests in
 progress

---
 pull/src/endpoint.cc | 8 ++++----
 pull/src/endpoint.h  | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index bd98cef..08ce296 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -21,7 +21,7 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
 
 Endpoint::~Endpoint() {
   server_.removeHandler(uri_);
-  if (auth_handler_) {
+  if (!auth_handlers_.empty()) {
     server_.removeAuthHandler(uri_);
   }
 }
@@ -34,12 +34,12 @@ void Endpoint::RegisterCollectable(
 void Endpoint::RegisterAuth(
     std::function<bool(const std::string&, const std::string&)> authCB,
     const std::string& realm) {
-  // split creating, assigning, and storing to avoid a race-condition when
+  // split creating, storing, and assigning to avoid a race-condition when
   // being called the second time and the handler is replaced
   auto new_handler =
       detail::make_unique<BasicAuthHandler>(std::move(authCB), realm);
-  server_.addAuthHandler(uri_, new_handler.get());
-  auth_handler_ = std::move(new_handler);
+  auth_handlers_.push_back(std::move(new_handler));
+  server_.addAuthHandler(uri_, auth_handlers_.back().get());
 }
 
 void Endpoint::RemoveCollectable(
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index 81bb48f..a855095 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -3,6 +3,7 @@
 #include <functional>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "CivetServer.h"
 #include "basic_auth.h"
@@ -37,7 +38,8 @@ class Endpoint {
   // registry for "meta" metrics about the endpoint itself
   std::shared_ptr<Registry> endpoint_registry_;
   std::unique_ptr<MetricsHandler> metrics_handler_;
-  std::unique_ptr<BasicAuthHandler> auth_handler_;
+  // replaced handlers are kept, because requests might still be using them
+  std::vector<std::unique_ptr<BasicAuthHandler>> auth_handlers_;
 };
 
 }  // namespace detail
-- 
2.43.0


From e562e5a08754fee4141dc30e9b148a1a12734631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 06/14] fix: reject unordered (NaN) bucket boundaries

---
 core/src/histogram.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index e437738..67e1b89 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -2,7 +2,6 @@
 
 #include <algorithm>
 #include <cstddef>
-#include <functional>
 #include <iterator>
 #include <limits>
 #include <memory>
@@ -15,9 +14,11 @@ namespace {
 
 template <class ForwardIterator>
 bool is_strict_sorted(ForwardIterator first, ForwardIterator last) {
-  return std::adjacent_find(first, last,
-                            std::greater_equal<typename std::iterator_traits<
-                                ForwardIterator>::value_type>()) == last;
+  using Value = typename std::iterator_traits<ForwardIterator>::value_type;
+  // negated to also find NaNs, which compare false with everything
+  return std::adjacent_find(first, last, [](const Value& a, const Value& b) {
+           return !(a < b);
+         }) == last;
 }
 
 }  // namespace
-- 
2.43.0


From 784d42417e8d78e41a4625b2b8cc8a58a0227fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 07/14] fix: count NaN observations in the +Inf bucket of a
 histogram

NaN compares false with every boundary, which made it count as less than
or equal to the lowest one.
---
 core/src/histogram.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index 67e1b89..47ad813 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -42,7 +42,11 @@ void Histogram::Observe(const double value) {
   const auto bucket_index = static_cast<std::size_t>(
       std::distance(bucket_boundaries_.begin(),
                     std::lower_bound(bucket_boundaries_.begin(),
-                                     bucket_boundaries_.end(), value)));
+                                     bucket_boundaries_.end(), value,
+                                     [](const double boundary, const double v) {
+                                       // negated to send NaN to the last bucket
+                                       return !(v <= boundary);
+                                     })));
 
   std::lock_guard<std::mutex> lock(mutex_);
   sum_.Increment(value);
-- 
2.43.0


From 8962cd642f47790440ec0d6038601ff6b648822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 08/14] fix: do not expose the +Inf bucket twice for an
 explicit +Inf boundary

Two series with the same name and labels are rejected by the scraper.
---
 core/src/histogram.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index 47ad813..4462860 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -86,6 +86,11 @@ ClientMetric Histogram::Collect() const {
   metric.histogram.bucket.reserve(bucket_counts_.size());
   for (std::size_t i{0}; i < bucket_counts_.size(); ++i) {
     cumulative_count += bucket_counts_[i].Value();
+    if (i < bucket_boundaries_.size() &&
+        bucket_boundaries_[i] == std::numeric_limits<double>::infinity()) {
+      // the implicit +Inf bucket follows and includes this one
+      continue;
+    }
     auto bucket = ClientMetric::Bucket{};
     bucket.cumulative_count = cumulative_count;
     bucket.upper_bound = (i == bucket_boundaries_.size()
-- 
2.43.0


From f2ac6fab0a24c150c323c91a5e0052dc180eb2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 09/14] fix: name the series of info metrics in their HELP and
 TYPE lines

The series carry an _info suffix, so that the metadata was about a metric
which does not exist and the series themselves were left untyped.
---
 core/src/text_serializer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 09381bc..4c673b3 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -175,7 +175,8 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " ";
+    out << "# HELP " << family.name
+        << (family.type == MetricType::Info ? "_info" : "") << " ";
     WriteHelp(out, family.help);
     out << "\n";
   }
@@ -195,7 +196,7 @@ void SerializeFamily(std::ostream& out, const MetricFamily& family) {
     // info is not handled by prometheus, we use gauge as workaround
     // (https://github.com/OpenObservability/OpenMetrics/blob/98ae26c87b1c3bcf937909a880b32c8be643cc9b/specification/OpenMetrics.md#info-1)
     case MetricType::Info:
-      out << "# TYPE " << family.name << " gauge\n";
+      out << "# TYPE " << family.name << "_info gauge\n";
       for (auto& metric : family.metric) {
         SerializeInfo(out, family, metric);
       }
-- 
2.43.0


From d79c786e1b6f3e00a5d8ee0004e69352b3e197e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 10/14] fix: compress scrape responses only for clients that
 accept gzip

The Accept-Encoding header was searched for the substring, so that "gzip;q=0"
(not acceptable) and other codings that contain the word were answered with
gzip.
---
 pull/src/handler.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..012d8e7 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -2,8 +2,8 @@
 
 #include <algorithm>
 #include <chrono>
-#include <cstring>
 #include <iterator>
+#include <sstream>
 #include <string>
 
 #ifdef HAVE_ZLIB
@@ -48,13 +48,39 @@ MetricsHandler::MetricsHandler(Registry& registry)
           {}, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}, {0.99, 0.001}})) {}
 
 #ifdef HAVE_ZLIB
+static bool IsBlank(char c) { return c == ' ' || c == '\t'; }
+
+static char ToLower(char c) {
+  return 'A' <= c && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 static bool IsEncodingAccepted(struct mg_connection* conn,
                                const char* encoding) {
   auto accept_encoding = mg_get_header(conn, "Accept-Encoding");
   if (!accept_encoding) {
     return false;
   }
-  return std::strstr(accept_encoding, encoding) != nullptr;
+
+  // comma separated codings with an optional weight, e.g. "gzip;q=0.5, br"
+  std::istringstream codings(accept_encoding);
+  std::string coding;
+  while (std::getline(codings, coding, ',')) {
+    coding.erase(std::remove_if(coding.begin(), coding.end(), IsBlank),
+                 coding.end());
+    std::transform(coding.begin(), coding.end(), coding.begin(), ToLower);
+
+    const auto separator = coding.find(';');
+    if (coding.compare(0, separator, encoding) != 0) {
+      continue;
+    }
+
+    // a weight of zero means "not acceptable"
+    const auto weight = coding.find(";q=");
+    return weight == std::string::npos ||
+           coding.find_first_of("123456789", weight) != std::string::npos;
+  }
+
+  return false;
 }
 
 static std::vector<Byte> GZipCompress(const std::string& input) {
-- 
2.43.0


From f7425854d7e9f565677be24e028d0bfffd4f7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 11/14] fix: stop the server before the auth handlers of an
 exposer are destroyed

A request that arrived after the request handler was removed but before the
auth handler was removed could still use the auth handler while it was freed.
---
 pull/src/endpoint.cc | 9 +++------
 pull/src/endpoint.h  | 4 ++++
 pull/src/exposer.cc  | 9 ++++++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index 08ce296..abb5d1b 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -19,12 +19,7 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
   server_.addHandler(uri_, metrics_handler_.get());
 }
 
-Endpoint::~Endpoint() {
-  server_.removeHandler(uri_);
-  if (!auth_handlers_.empty()) {
-    server_.removeAuthHandler(uri_);
-  }
-}
+Endpoint::~Endpoint() = default;
 
 void Endpoint::RegisterCollectable(
     const std::weak_ptr<Collectable>& collectable) {
@@ -47,6 +42,8 @@ void Endpoint::RemoveCollectable(
   metrics_handler_->RemoveCollectable(collectable);
 }
 
+void Endpoint::StopServing() { server_.removeHandler(uri_); }
+
 const std::string& Endpoint::GetURI() const { return uri_; }
 
 }  // namespace detail
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index a855095..7e03a9a 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -30,6 +30,10 @@ class Endpoint {
       const std::string& realm);
   void RemoveCollectable(const std::weak_ptr<Collectable>& collectable);
 
+  // waits for scrapes in progress; the server has to be closed before the
+  // endpoint is destroyed
+  void StopServing();
+
   const std::string& GetURI() const;
 
  private:
diff --git a/pull/src/exposer.cc b/pull/src/exposer.cc
index 5ee3ade..36b3a3b 100644
--- a/pull/src/exposer.cc
+++ b/pull/src/exposer.cc
@@ -23,7 +23,14 @@ Exposer::Exposer(std::vector<std::string> options,
     : server_(detail::make_unique<CivetServer>(std::move(options), callbacks)) {
 }
 
-Exposer::~Exposer() = default;
+Exposer::~Exposer() {
+  // let scrapes in progress finish, then stop the server before the auth
+  // handlers, which are not protected from removal while in use, are destroyed
+  for (auto& endpoint : endpoints_) {
+    endpoint->StopServing();
+  }
+  server_->close();
+}
 
 void Exposer::RegisterCollectable(const std::weak_ptr<Collectable>& collectable,
                                   const std::string& uri) {
-- 
2.43.0


From 19e636f8c5cb273e2a972f83198e7533a38fc11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 12/14] fix: release the curl handle if the set-up callback
 throws in the constructor

---
 push/src/detail/curl_wrapper.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/push/src/detail/curl_wrapper.cc b/push/src/detail/curl_wrapper.cc
index 997c374..62e3e5c 100644
--- a/push/src/detail/curl_wrapper.cc
+++ b/push/src/detail/curl_wrapper.cc
@@ -22,13 +22,20 @@ CurlWrapper::CurlWrapper(std::function<void(CURL*)> presetupCurl)
     throw std::runtime_error("Cannot initialize easy curl!");
   }
 
-  if (presetupCurl_) {
-    presetupCurl_(curl_);  
-  }
-
-  optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
-  if (!optHttpHeader_) {
-    throw std::runtime_error("Cannot append the header of the content type");
+  // the destructor does not run if construction fails
+  try {
+    if (presetupCurl_) {
+      presetupCurl_(curl_);  
+    }
+
+    optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
+    if (!optHttpHeader_) {
+      throw std::runtime_error("Cannot append the header of the content type");
+    }
+  } catch (...) {
+    curl_easy_cleanup(curl_);
+    curl_global_cleanup();
+    throw;
   }
 }
 
-- 
2.43.0


From 593d9ed2b5ed6fd7b411c8cac224429c7ef621d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 13/14] fix: keep the quantile buffer consistent when flushing
 it runs out of memory

CKMSQuantiles::insert() stored the value before flushing the full buffer. If
the flush threw, the buffer stayed full, the next insert wrote past its end,
and the part that was already flushed was flushed again.
---
 core/src/detail/ckms_quantiles.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/detail/ckms_quantiles.cc b/core/src/detail/ckms_quantiles.cc
index 7ab6f1f..629ed05 100644
--- a/core/src/detail/ckms_quantiles.cc
+++ b/core/src/detail/ckms_quantiles.cc
@@ -21,13 +21,15 @@ CKMSQuantiles::CKMSQuantiles(const std::vector<Quantile>& quantiles)
     : quantiles_(quantiles), count_(0), buffer_{}, buffer_count_(0) {}
 
 void CKMSQuantiles::insert(double value) {
-  buffer_[buffer_count_] = value;
-  ++buffer_count_;
-
+  // Make room before storing the value: if flushing the buffer fails, it is
+  // still full and nothing has changed.
   if (buffer_count_ == buffer_.size()) {
     insertBatch();
     compress();
   }
+
+  buffer_[buffer_count_] = value;
+  ++buffer_count_;
 }
 
 double CKMSQuantiles::get(double q) {
@@ -90,6 +92,12 @@ bool CKMSQuantiles::insertBatch() {
     return false;
   }
 
+  // Running out of memory must not leave a part of the buffer inserted.
+  const auto required = sample_.size() + buffer_count_;
+  if (required > sample_.capacity()) {
+    sample_.reserve(std::max(required, 2 * sample_.capacity()));
+  }
+
   std::sort(buffer_.begin(), buffer_.begin() + buffer_count_);
 
   std::size_t start = 0;
-- 
2.43.0


From 19981170805c8af183e4ed3087858c2fd4b77603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 14/14] fix: do not leave a dangling handler when storing an
 endpoint fails

The server refers to an endpoint from its construction on. If growing the
vector of endpoints failed, the endpoint was destroyed with its handler still
being registered, and the next scrape of its path used freed memory.
---
 pull/src/exposer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pull/src/exposer.cc b/pull/src/exposer.cc
index 36b3a3b..dacfc8b 100644
--- a/pull/src/exposer.cc
+++ b/pull/src/exposer.cc
@@ -67,6 +67,9 @@ detail::Endpoint& Exposer::GetEndpointForUri(const std::string& uri) {
     return *it->get();
   }
 
+  // The server refers to the endpoint as soon as it is constructed, storing it
+  // must not fail then.
+  endpoints_.reserve(endpoints_.size() + 1);
   endpoints_.emplace_back(detail::make_unique<detail::Endpoint>(*server_, uri));
   return *endpoints_.back().get();
 }
-- 
2.43.0

