// Generators shared by the checks.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <string>
#include <vector>

#include "pbt.h"
#include "prometheus/labels.h"
#include "prometheus/metric_family.h"
#include "prometheus/metric_type.h"

namespace gen {

using pbt::Source;

constexpr double kInf = std::numeric_limits<double>::infinity();
inline double nan() { return std::numeric_limits<double>::quiet_NaN(); }

inline double fromBits(uint64_t b) {
  double d;
  memcpy(&d, &b, sizeof d);
  return d;
}

// any finite double, from simple to nasty
inline double finite(Source& s) {
  static const double special[] = {
      0.0, 1.0, -1.0, 0.5, -0.0, 2.0, 10.0, 0.1, 0.3, 100.0, 1e3, 1e5, 1e6,
      123456.0, 1234567.0, 999999.0, 1e15, 9007199254740992.0,
      9007199254740991.0, -9007199254740991.0, 1e16, 1e17, 1e21, 1e22, 1e-4,
      1e-5, 1e-7, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308,
      4294967296.0, 4294967295.0, 18446744073709551616.0, 9223372036854775807.0,
      1e100, 1e300, 1e-300, 3.141592653589793, 2.718281828459045,
      0.30000000000000004, 1.0000000000000002, 0.9999999999999999,
      1.797693134862315e+308, -1.797693134862315e+308, 1431655765.25};
  switch (s.weighted({4, 3, 3, 3, 3, 2, 2, 2})) {
    case 0: return special[s.draw(sizeof special / sizeof *special)];
    case 1: return static_cast<double>(s.range(-1000, 1000));
    case 2: return static_cast<double>(s.range(-1000000, 1000000)) / 1024.0;
    case 3: {  // decimal
      double m = static_cast<double>(s.range(-99999999, 99999999));
      return m * std::pow(10.0, static_cast<double>(s.range(-20, 20)));
    }
    case 4: {  // integers below 2^53
      double v = static_cast<double>(s.bits64() >> (11 + s.draw(50)));
      return s.coin() ? -v : v;
    }
    case 5: {  // any mantissa, moderate exponent
      double m = 1.0 + static_cast<double>(s.bits64() >> 12) * 0x1p-52;
      double v = std::ldexp(m, static_cast<int>(s.range(-60, 60)));
      return s.coin() ? -v : v;
    }
    case 6: {  // limits of integer types and digit counts, and around them
      double v = s.coin() ? std::ldexp(1.0, static_cast<int>(s.range(0, 70)))
                          : std::pow(10.0, static_cast<double>(s.range(0, 22)));
      static const double off[] = {0, -1, 1, -0.5, 0.5};
      v += off[s.draw(5)];
      return s.coin() ? -v : v;
    }
    default: {
      double d = fromBits(s.bits64());
      // the last representable numbers are a known finding of C02
      return std::isfinite(d) && std::fabs(d) < 1.797693134862315e308 ? d : 1.5;
    }
  }
}

inline double any(Source& s) {
  if (s.chance(1, 8)) {
    switch (s.draw(3)) {
      case 0: return kInf;
      case 1: return -kInf;
      default: return nan();
    }
  }
  return finite(s);
}

// usually 0; sometimes a size up to max, of any magnitude
inline size_t bulk(Source& s, size_t max, uint64_t oneIn) {
  if (!s.chance(1, oneIn)) return 0;
  size_t bits = 1;
  while ((size_t{1} << bits) < max) ++bits;
  const size_t top = size_t{1} << (1 + s.draw(bits));
  // next to powers of two, or anywhere
  const size_t n = s.chance(1, 3) ? top - 1 + s.draw(3) : top / 2 + s.draw(top / 2 + 1);
  return std::min(n, max);
}

// bytes of a text, with the characters that formats care about
inline std::string text(Source& s, size_t max = 60, size_t huge = 0) {
  static const std::string nasty[] = {
      "\n", "\\", "\"", "\\n", "\\\\", "\\\"", "\n\n", "\r\n", "\t", "{", "}",
      ",", "=", "#", "# HELP ", "# TYPE ", " ", "  ", "le=\"1\"",
      "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", std::string(1, '\0'), "\x7f",
      "}", " 1 2", "%s", "%n", "/", "+", "?", "&", ".", "@base64"};
  std::string r;
  if (s.chance(1, 12)) {  // long and plain, with one special spot
    const size_t b = huge ? bulk(s, huge, 6) : 0;
    r.assign(b ? b : s.draw(8 * max + 40), 'a');
    const size_t at = r.size() - s.draw(s.coin() ? r.size() + 1 : std::min<size_t>(r.size(), 4) + 1);
    r.insert(at, nasty[s.draw(sizeof nasty / sizeof *nasty)]);
    return r;
  }
  size_t n = s.length(max);
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({5, 4, 1})) {
      case 0: r += static_cast<char>('a' + s.draw(26)); break;
      case 1: r += nasty[s.draw(sizeof nasty / sizeof *nasty)]; break;
      default: r += static_cast<char>(s.draw(256)); break;
    }
  }
  return r;
}

inline std::string name(Source& s, const char* first, const char* rest,
                        size_t max) {
  for (;;) {
    std::string r(1, first[s.draw(strlen(first))]);
    size_t n = s.length(max);
    for (size_t i = 0; i < n; ++i) r += rest[s.draw(strlen(rest))];
    if (r.compare(0, 2, "__") == 0) r[0] = 'x';
    return r;
  }
}

inline std::string labelName(Source& s) {
  static const char* common[] = {"a", "b", "instance", "method", "code", "A",
                                 "_", "a1", "job", "Le", "le_", "lee", "quantiles", "x__y", "q", "ab", "Z9"};
  if (s.chance(3, 4)) return common[s.draw(sizeof common / sizeof *common)];
  std::string r = name(
      s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_",
      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", 24);
  if (r == "le" || r == "quantile") r += "x";
  return r;
}

inline std::string metricName(Source& s) {
  static const char* common[] = {"m", "http_requests_total", "a:b", ":", "_x",
                                 "m_total", "M", "x_info", "x_count", "m1", "mm"};
  if (s.chance(2, 3)) return common[s.draw(sizeof common / sizeof *common)];
  return name(
      s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:",
      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:0123456789", 24);
}

inline prometheus::Labels labels(Source& s, size_t max = 4, bool large = false) {
  prometheus::Labels l;
  size_t n = s.draw(max + 1);
  if (large) {
    const size_t many = bulk(s, 200, 60);
    for (size_t i = 0; i < many; ++i) l["l" + std::to_string(i)] = std::to_string(i);
  }
  for (size_t i = 0; i < n; ++i) {
    std::string k = labelName(s);
    l[k] = text(s, 20, large ? 70000 : 0);
  }
  return l;
}

inline std::string show(const prometheus::Labels& l) {
  std::string r = "{";
  for (auto& p : l) {
    if (r.size() > 1) r += ", ";
    r += p.first + "=" + pbt::esc(p.second);
  }
  return r + "}";
}

inline const char* typeName(prometheus::MetricType t) {
  using prometheus::MetricType;
  switch (t) {
    case MetricType::Counter: return "counter";
    case MetricType::Gauge: return "gauge";
    case MetricType::Info: return "info";
    case MetricType::Summary: return "summary";
    case MetricType::Untyped: return "untyped";
    case MetricType::Histogram: return "histogram";
  }
  return "?";
}

// a collected family as a collectable may hand it to the serializer
struct FamilyOptions {
  size_t maxMetrics = 4;
  bool plainValues = false;  // values that print exactly
  bool large = false;        // sometimes many labels, metrics, buckets, long texts
};

inline double value(Source& s, const FamilyOptions& o) {
  if (o.plainValues) {
    if (s.chance(1, 10)) return s.coin() ? kInf : (s.coin() ? -kInf : nan());
    return static_cast<double>(s.range(-100000, 100000)) / 64.0;
  }
  return any(s);
}

inline prometheus::MetricFamily family(Source& s, const std::string& fname,
                                       const FamilyOptions& o = {}) {
  using namespace prometheus;
  MetricFamily f;
  f.name = fname;
  if (s.chance(4, 5)) f.help = text(s, 60, o.large ? 70000 : 0);
  f.type = static_cast<MetricType>(s.draw(6));
  switch (s.draw(6)) {  // independent of the numbering of the enum
    case 0: f.type = MetricType::Counter; break;
    case 1: f.type = MetricType::Gauge; break;
    case 2: f.type = MetricType::Info; break;
    case 3: f.type = MetricType::Summary; break;
    case 4: f.type = MetricType::Untyped; break;
    case 5: f.type = MetricType::Histogram; break;
  }
  size_t n = s.draw(o.maxMetrics + 1);
  const size_t many = o.large ? bulk(s, 3000, 60) : 0;
  std::map<Labels, bool> used;
  for (size_t i = 0; i < n + many; ++i) {
    Labels l;
    if (i < n) {
      l = labels(s, 4, o.large);
    } else {
      l["series"] = std::to_string(i);
    }
    if (used[l]) continue;
    used[l] = true;
    ClientMetric m;
    if (i >= n) {
      // no draws for the bulk
      ClientMetric::Label x;
      x.name = "series";
      x.value = std::to_string(i);
      m.label.push_back(x);
      m.counter.value = m.gauge.value = m.untyped.value = m.summary.sample_sum = m.histogram.sample_sum = static_cast<double>(i);
      m.info.value = 1;
      m.summary.sample_count = m.histogram.sample_count = i;
      f.metric.push_back(m);
      continue;
    }
    // the order of labels is up to the collectable
    for (auto& p : l) {
      ClientMetric::Label x;
      x.name = p.first;
      x.value = p.second;
      if (s.chance(1, 4)) {
        m.label.insert(m.label.begin(), x);
      } else {
        m.label.push_back(x);
      }
    }
    switch (s.weighted({4, 2, 2})) {
      case 0: m.timestamp_ms = 0; break;
      case 1: m.timestamp_ms = s.range(1, 2000000000000); break;
      default: {
        m.timestamp_ms = static_cast<int64_t>(s.bits64() >> s.draw(64));
        break;
      }
    }
    auto count = [&s]() -> uint64_t {
      switch (s.draw(3)) {
        case 0: return s.draw(1000);
        case 1: return s.bits64() >> s.draw(64);
        default: return ~0ull - s.draw(3);
      }
    };
    switch (f.type) {
      case MetricType::Counter: m.counter.value = value(s, o); break;
      case MetricType::Gauge: m.gauge.value = value(s, o); break;
      case MetricType::Info: m.info.value = 1; break;
      case MetricType::Untyped: m.untyped.value = value(s, o); break;
      case MetricType::Summary: {
        m.summary.sample_count = count();
        m.summary.sample_sum = value(s, o);
        size_t q = s.draw(5);
        static const double qs[] = {0.5, 0.9, 0.99, 0.999, 0.0, 1.0, 0.25};
        for (size_t k = 0; k < q; ++k) {
          ClientMetric::Quantile x;
          x.quantile = qs[k];
          x.value = value(s, o);
          m.summary.quantile.push_back(x);
        }
        const size_t more = o.large ? bulk(s, 500, 30) : 0;
        for (size_t k = 0; k < more; ++k) {
          ClientMetric::Quantile x;
          x.quantile = 0.3 + static_cast<double>(k) / 8192;
          x.value = static_cast<double>(k);
          m.summary.quantile.push_back(x);
        }
        break;
      }
      case MetricType::Histogram: {
        m.histogram.sample_count = count();
        m.histogram.sample_sum = value(s, o);
        size_t b = s.draw(6);
        double bound = s.chance(1, 8)
                           ? -kInf
                           : static_cast<double>(s.range(-50, 50)) / 4.0;
        uint64_t cum = 0;
        for (size_t k = 0; k < b; ++k) {
          ClientMetric::Bucket x;
          x.upper_bound = bound;
          cum += s.draw(10);
          if (cum > m.histogram.sample_count) cum = m.histogram.sample_count;
          x.cumulative_count = cum;
          m.histogram.bucket.push_back(x);
          if (std::isinf(bound)) bound = -100;
          bound += static_cast<double>(s.range(1, 4000)) / 8.0;
        }
        const size_t more = o.large ? bulk(s, 500, 30) : 0;
        for (size_t k = 0; k < more; ++k) {
          ClientMetric::Bucket x;
          x.upper_bound = 1e6 + static_cast<double>(k);
          x.cumulative_count = cum;
          m.histogram.bucket.push_back(x);
        }
        if (s.chance(1, 2)) {
          ClientMetric::Bucket x;
          x.upper_bound = kInf;
          x.cumulative_count = m.histogram.sample_count;
          m.histogram.bucket.push_back(x);
        }
        break;
      }
    }
    f.metric.push_back(m);
  }
  return f;
}

inline std::vector<prometheus::MetricFamily> families(
    Source& s, size_t max, const FamilyOptions& o = {}) {
  std::vector<prometheus::MetricFamily> r;
  size_t n = s.draw(max + 1);
  const size_t many = o.large ? bulk(s, 400, 60) : 0;
  std::map<std::string, bool> used;
  for (size_t i = 0; i < n + many; ++i) {
    if (i >= n) {
      prometheus::MetricFamily f;
      f.name = "family" + std::to_string(i);
      f.type = prometheus::MetricType::Gauge;
      f.metric.resize(i % 3);
      for (size_t k = 0; k < f.metric.size(); ++k) {
        prometheus::ClientMetric::Label x;
        x.name = "k";
        x.value = std::to_string(k);
        f.metric[k].label.push_back(x);
        f.metric[k].gauge.value = static_cast<double>(i);
      }
      r.push_back(f);
      continue;
    }
    std::string fname = metricName(s);
    // keep the names of the series distinct, some types add suffixes
    static const char* suffixes[] = {"", "_info", "_count", "_sum", "_bucket"};
    bool collides = false;
    for (auto x : suffixes) collides = collides || used[fname + x];
    if (collides) continue;
    for (auto x : suffixes) used[fname + x] = true;
    r.push_back(family(s, fname, o));
  }
  return r;
}

inline std::string show(const prometheus::MetricFamily& f) {
  using prometheus::MetricType;
  std::string r = std::string(typeName(f.type)) + " " + f.name + " help=" +
                  pbt::esc(f.help);
  for (auto& m : f.metric) {
    r += "\n  {";
    for (auto& l : m.label) r += l.name + "=" + pbt::esc(l.value) + ",";
    r += "} ts=" + std::to_string(m.timestamp_ms) + " ";
    switch (f.type) {
      case MetricType::Counter: r += pbt::num(m.counter.value); break;
      case MetricType::Gauge: r += pbt::num(m.gauge.value); break;
      case MetricType::Info: r += "1"; break;
      case MetricType::Untyped: r += pbt::num(m.untyped.value); break;
      case MetricType::Summary:
        r += "count=" + std::to_string(m.summary.sample_count) +
             " sum=" + pbt::num(m.summary.sample_sum);
        for (auto& q : m.summary.quantile) {
          r += " q" + pbt::num(q.quantile) + "=" + pbt::num(q.value);
        }
        break;
      case MetricType::Histogram:
        r += "count=" + std::to_string(m.histogram.sample_count) +
             " sum=" + pbt::num(m.histogram.sample_sum);
        for (auto& b : m.histogram.bucket) {
          r += " le" + pbt::num(b.upper_bound) + "=" +
               std::to_string(b.cumulative_count);
        }
        break;
    }
  }
  return r;
}

}  // namespace gen
