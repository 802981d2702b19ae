// Shared by the checks of the pull library.
#pragma once

#include <memory>
#include <string>
#include <vector>

#include "gen.h"
#include "httpc.h"
#include "pbt.h"
#include "prometheus/collectable.h"
#include "prometheus/exposer.h"
#include "prometheus/text_serializer.h"
#include "textparse.h"

namespace pullutil {

struct Fixed : prometheus::Collectable {
  std::vector<prometheus::MetricFamily> families;
  std::vector<prometheus::MetricFamily> Collect() const override { return families; }
};

inline std::string textOf(const prometheus::Collectable& c) {
  return prometheus::TextSerializer{}.Serialize(c.Collect());
}

// families with names that nobody else uses
inline std::vector<prometheus::MetricFamily> uniqueFamilies(pbt::Source& s, const std::string& prefix, size_t max) {
  std::vector<prometheus::MetricFamily> r = gen::families(s, max);
  for (size_t i = 0; i < r.size(); ++i) r[i].name = prefix + "_" + std::to_string(i);
  return r;
}

inline prometheus::MetricFamily numberFamily(const std::string& name, double v) {
  prometheus::MetricFamily f;
  f.name = name;
  f.type = prometheus::MetricType::Gauge;
  f.metric.resize(1);
  f.metric[0].gauge.value = v;
  return f;
}

struct Own {
  uint64_t scrapes = 0, latencies = 0;
  double bytes = 0, latencySum = 0;
};

// Takes the text of the collectables out of a response body: it has to be
// there, in one piece each; what remains are the metrics of the endpoint.
inline Own consume(std::string body, const std::vector<std::string>& blocks, const std::string& what) {
  for (auto& b : blocks) {
    if (b.empty()) continue;
    size_t at = 0;
    for (;;) {
      at = body.find(b, at);
      PBT_CHECK(at != std::string::npos, what << " does not contain " << pbt::esc(b.substr(0, 500)) << " (" << b.size()
                                              << " bytes) but " << pbt::esc(body.substr(0, 1500)) << " (" << body.size()
                                              << " bytes)");
      if (at == 0 || body[at - 1] == '\n') break;
      ++at;
    }
    body.erase(at, b.size());
  }
  Own o;
  int seen = 0;
  for (auto& block : textparse::Parser(body).parse().blocks) {
    PBT_CHECK(block.metric.compare(0, 8, "exposer_") == 0,
              what << " also contains " << block.metric << ": " << pbt::esc(body.substr(0, 1500)));
    for (auto& s : block.samples) {
      if (s.name == "exposer_scrapes_total") o.scrapes = textparse::toCount(s.value), seen |= 1;
      if (s.name == "exposer_transferred_bytes_total") o.bytes = textparse::toDouble(s.value), seen |= 2;
      if (s.name == "exposer_request_latencies_count") o.latencies = textparse::toCount(s.value), seen |= 4;
      if (s.name == "exposer_request_latencies_sum") o.latencySum = textparse::toDouble(s.value), seen |= 8;
    }
  }
  PBT_CHECK(seen == 15, what << " lacks metrics of the endpoint: " << pbt::esc(body.substr(0, 1500)));
  return o;
}

// status, type and framing of a response with metrics; returns its text
inline std::string metricsText(const httpc::Response& r, bool mayCompress, const std::string& what) {
  PBT_CHECK(r.complete, what << ": " << r.error);
  PBT_CHECK(r.status == 200, what << ": status " << r.status);
  const auto types = r.all("content-type");
  PBT_CHECK(types.size() == 1 && types[0].compare(0, 10, "text/plain") == 0,
            what << ": content type " << (types.empty() ? "missing" : types[0]));
  PBT_CHECK(r.all("content-length").size() == 1, what << ": no content length");
  const auto encodings = r.all("content-encoding");
  PBT_CHECK(encodings.size() <= 1, what << ": several encodings");
  if (encodings.empty() || encodings[0] == "identity") return r.body;
  PBT_CHECK(encodings[0] == "gzip", what << ": encoding " << encodings[0]);
  PBT_CHECK(mayCompress, what << ": compressed for a client that does not accept it");
  std::string text;
  PBT_CHECK(httpc::gunzip(r.body, &text), what << ": the body of " << r.body.size() << " bytes is not gzip");
  return text;
}

}  // namespace pullutil
