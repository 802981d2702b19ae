// Oracle: does an exposition text say exactly what a list of collected
// families says?
#pragma once

#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "gen.h"
#include "pbt.h"
#include "prometheus/metric_family.h"
#include "textparse.h"

namespace expo {

using prometheus::MetricFamily;
using prometheus::MetricType;

// equal to 16 significant digits, exact for integers up to 2^53
inline bool sameNumber(double expected, double got) {
  if (std::isnan(expected)) return std::isnan(got);
  if (std::isnan(got)) return false;
  if (expected == got) return true;
  if (std::isinf(expected) || std::isinf(got)) return false;
  if (expected == std::floor(expected) &&
      std::fabs(expected) <= 9007199254740992.0) {
    return false;
  }
  return std::fabs(expected - got) <= 1e-15 * std::fabs(expected);
}

struct Want {
  std::string name;
  std::map<std::string, std::string> labels;  // without le and quantile
  std::string extra;                          // "le", "quantile" or ""
  double extraValue = 0;
  bool isCount = false;
  uint64_t count = 0;
  double value = 0;
  int64_t ts = 0;
};

inline bool matches(const Want& w, const textparse::Sample& g) {
  if (w.name != g.name) return false;
  auto labels = g.labels;
  if (!w.extra.empty()) {
    auto it = labels.find(w.extra);
    if (it == labels.end()) return false;
    if (!textparse::validNumber(it->second)) return false;
    if (!sameNumber(w.extraValue, textparse::toDouble(it->second))) {
      return false;
    }
    labels.erase(it);
  }
  if (labels != w.labels) return false;
  if (w.isCount) {
    if (textparse::toCount(g.value) != w.count) return false;
  } else if (!sameNumber(w.value, textparse::toDouble(g.value))) {
    return false;
  }
  if (w.ts == 0) return !g.hasTimestamp;
  return g.hasTimestamp && g.timestamp == std::to_string(w.ts);
}

inline std::string keyOf(const std::string& name,
                         const std::map<std::string, std::string>& labels) {
  std::string r = name;
  for (auto& l : labels) {
    if (l.first != "le" && l.first != "quantile") {
      r += "\x01" + l.first + "\x02" + l.second;
    }
  }
  return r;
}

inline std::string show(const Want& w) {
  std::string r = w.name + "{";
  for (auto& l : w.labels) r += l.first + "=" + pbt::esc(l.second) + ",";
  if (!w.extra.empty()) r += w.extra + "=" + pbt::num(w.extraValue);
  r += "} ";
  r += w.isCount ? std::to_string(w.count) : pbt::num(w.value);
  if (w.ts) r += " " + std::to_string(w.ts);
  return r;
}

inline std::vector<Want> expected(const MetricFamily& f) {
  std::vector<Want> r;
  for (auto& m : f.metric) {
    Want base;
    base.name = f.name;
    for (auto& l : m.label) base.labels[l.name] = l.value;
    base.ts = m.timestamp_ms;
    auto plain = [&](double v, const char* suffix) {
      Want w = base;
      w.name += suffix;
      w.value = v;
      r.push_back(w);
    };
    auto count = [&](uint64_t v, const char* suffix) {
      Want w = base;
      w.name += suffix;
      w.isCount = true;
      w.count = v;
      r.push_back(w);
    };
    switch (f.type) {
      case MetricType::Counter: plain(m.counter.value, ""); break;
      case MetricType::Gauge: plain(m.gauge.value, ""); break;
      case MetricType::Untyped: plain(m.untyped.value, ""); break;
      case MetricType::Info: plain(m.info.value, "_info"); break;
      case MetricType::Summary:
        count(m.summary.sample_count, "_count");
        plain(m.summary.sample_sum, "_sum");
        for (auto& q : m.summary.quantile) {
          plain(q.value, "");
          r.back().extra = "quantile";
          r.back().extraValue = q.quantile;
        }
        break;
      case MetricType::Histogram: {
        count(m.histogram.sample_count, "_count");
        plain(m.histogram.sample_sum, "_sum");
        bool inf = false;
        for (auto& b : m.histogram.bucket) {
          count(b.cumulative_count, "_bucket");
          r.back().extra = "le";
          r.back().extraValue = b.upper_bound;
          if (b.upper_bound == gen::kInf) inf = true;
        }
        if (!inf) {
          count(m.histogram.sample_count, "_bucket");
          r.back().extra = "le";
          r.back().extraValue = gen::kInf;
        }
        break;
      }
    }
  }
  return r;
}

inline const char* expositionType(MetricType t) {
  // info is no type of the text format
  return t == MetricType::Info ? "gauge" : gen::typeName(t);
}

// no series may appear twice in a document
inline void checkUnique(const textparse::Document& d) {
  std::map<std::string, bool> seen;
  for (auto& b : d.blocks) {
    for (auto& s : b.samples) {
      std::string k = s.name;
      for (auto& l : s.labels) k += "\x01" + l.first + "\x02" + l.second;
      PBT_CHECK(!seen[k], "series exposed twice: " << pbt::esc(k));
      seen[k] = true;
    }
  }
}

// text and families describe the same thing; families are in the same order,
// the samples of a family may come in any order, but those of one histogram or
// summary stay together with ascending bounds
inline void compare(const std::string& text,
                    const std::vector<MetricFamily>& families,
                    bool unique = true) {
  auto doc = textparse::parse(text);
  PBT_CHECK(doc.blocks.size() == families.size(),
            "expected " << families.size() << " metric blocks, got "
                        << doc.blocks.size() << " in " << pbt::esc(text));
  for (size_t i = 0; i < families.size(); ++i) {
    const auto& f = families[i];
    const auto& b = doc.blocks[i];
    const std::string series =
        f.name + (f.type == MetricType::Info ? "_info" : "");
    PBT_CHECK(b.metric == series,
              "metadata is about " << b.metric << " instead of " << series);
    PBT_CHECK(b.hasType, "no TYPE line for " << series);
    PBT_CHECK(b.type == expositionType(f.type),
              series << " has type " << b.type << " instead of "
                     << expositionType(f.type));
    PBT_CHECK(b.hasHelp || f.help.empty(), "no HELP line for " << series);
    PBT_CHECK(!b.hasHelp || b.help == f.help,
              "help text " << pbt::esc(f.help) << " reads back as "
                           << pbt::esc(b.help));
    auto want = expected(f);
    PBT_CHECK(want.size() == b.samples.size(),
              series << ": expected " << want.size() << " samples, got "
                     << b.samples.size() << " in " << pbt::esc(text));
    // candidates: the same name and labels, whatever le and quantile say
    std::map<std::string, std::vector<size_t>> byKey;
    for (size_t g = 0; g < b.samples.size(); ++g) {
      byKey[keyOf(b.samples[g].name, b.samples[g].labels)].push_back(g);
    }
    std::vector<bool> used(b.samples.size());
    std::map<std::string, size_t> from;
    for (size_t k = 0; k < want.size(); ++k) {
      const std::string key = keyOf(want[k].name, want[k].labels);
      const auto& candidates = byKey[key];
      size_t& start = from[key];  // usually in the same order
      bool found = false;
      for (size_t off = 0; off < candidates.size() && !found; ++off) {
        const size_t at = (start + off) % candidates.size(), g = candidates[at];
        if (used[g] || !matches(want[k], b.samples[g])) continue;
        used[g] = true;
        found = true;
        start = at + 1;
      }
      PBT_CHECK(found, "missing sample " << show(want[k]) << " in "
                                         << pbt::esc(text));
    }
    // buckets of one histogram: ascending bounds
    if (f.type == MetricType::Histogram) {
      std::map<std::map<std::string, std::string>, double> last;
      for (auto& s : b.samples) {
        if (s.name != f.name + "_bucket") continue;
        auto l = s.labels;
        double le = textparse::toDouble(l["le"]);
        l.erase("le");
        auto it = last.find(l);
        PBT_CHECK(it == last.end() || it->second < le,
                  "buckets out of order at le=" << le);
        last[l] = le;
      }
    }
  }
  if (unique) checkUnique(doc);
}

}  // namespace expo
