// The five metric types behind one interface.
#pragma once

#include <cmath>
#include <iterator>
#include <string>

#include "gen.h"
#include "pbt.h"
#include "prometheus/counter.h"
#include "prometheus/family.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"

namespace kinds {

using namespace prometheus;

// what a metric should hold
struct State {
  double value = 0;  // counter, gauge, sum of histogram and summary
  uint64_t count = 0;
};

template <class T>
struct Kind;

template <>
struct Kind<Counter> {
  static constexpr const char* name = "counter";
  static constexpr MetricType type = MetricType::Counter;
  static auto builder() { return BuildCounter(); }
  static Counter& add(Family<Counter>& f, const Labels& l, int) { return f.Add(l); }
  static State initial(int) { return {}; }
  static void update(Counter& m, State& st, int v) {
    m.Increment(v < 0 ? -v : v);
    st.value += v < 0 ? -v : v;
  }
  static bool matches(const ClientMetric& m, const State& st) {
    return m.counter.value == st.value;
  }
  static State read(const ClientMetric& m) { return {m.counter.value, 0}; }
};

template <>
struct Kind<Gauge> {
  static constexpr const char* name = "gauge";
  static constexpr MetricType type = MetricType::Gauge;
  static auto builder() { return BuildGauge(); }
  static Gauge& add(Family<Gauge>& f, const Labels& l, int arg) {
    return arg ? f.Add(l, static_cast<double>(arg)) : f.Add(l);
  }
  static State initial(int arg) { return {static_cast<double>(arg), 0}; }
  static void update(Gauge& m, State& st, int v) {
    m.Increment(v);
    st.value += v;
  }
  static bool matches(const ClientMetric& m, const State& st) {
    return m.gauge.value == st.value;
  }
  static State read(const ClientMetric& m) { return {m.gauge.value, 0}; }
};

template <>
struct Kind<Info> {
  static constexpr const char* name = "info";
  static constexpr MetricType type = MetricType::Info;
  static auto builder() { return BuildInfo(); }
  static Info& add(Family<Info>& f, const Labels& l, int) { return f.Add(l); }
  static State initial(int) { return {1, 0}; }
  static void update(Info&, State&, int) {}
  static bool matches(const ClientMetric& m, const State&) { return m.info.value == 1; }
  static State read(const ClientMetric& m) { return {m.info.value, 0}; }
};

template <>
struct Kind<Histogram> {
  static constexpr const char* name = "histogram";
  static constexpr MetricType type = MetricType::Histogram;
  static auto builder() { return BuildHistogram(); }
  static Histogram& add(Family<Histogram>& f, const Labels& l, int arg) {
    return f.Add(l, Histogram::BucketBoundaries{static_cast<double>(arg), arg + 1.0});
  }
  static State initial(int) { return {}; }
  static void update(Histogram& m, State& st, int v) {
    m.Observe(v);
    st.value += v;
    st.count += 1;
  }
  static bool matches(const ClientMetric& m, const State& st) {
    return m.histogram.sample_count == st.count && m.histogram.sample_sum == st.value &&
           m.histogram.bucket.size() == 3 && m.histogram.bucket[2].cumulative_count == st.count;
  }
  static State read(const ClientMetric& m) {
    return {m.histogram.sample_sum, m.histogram.sample_count};
  }
};

template <>
struct Kind<Summary> {
  static constexpr const char* name = "summary";
  static constexpr MetricType type = MetricType::Summary;
  static auto builder() { return BuildSummary(); }
  static Summary& add(Family<Summary>& f, const Labels& l, int arg) {
    return f.Add(l, Summary::Quantiles{{arg ? 0.9 : 0.5, 0.01}});
  }
  static State initial(int) { return {}; }
  static void update(Summary& m, State& st, int v) {
    m.Observe(v);
    st.value += v;
    st.count += 1;
  }
  static bool matches(const ClientMetric& m, const State& st) {
    return m.summary.sample_count == st.count && m.summary.sample_sum == st.value &&
           m.summary.quantile.size() == 1;
  }
  static State read(const ClientMetric& m) {
    return {m.summary.sample_sum, m.summary.sample_count};
  }
};

// label sets that are easily confused with each other
inline Labels confusable(pbt::Source& s, bool binary) {
  static const char* names[] = {"a", "b", "ab", "c", "abc", "aa", "x_y", "A"};
  Labels l;
  if (binary && s.chance(1, 25)) {  // many labels, or long ones, that differ in one place
    if (s.coin()) {
      static const size_t sizes[] = {5, 9, 17, 33, 65, 130};
      const size_t n = sizes[s.draw(6)], odd = s.coin() ? s.draw(n) : n - 1;
      const char* other = s.coin() ? "v" : "w";
      for (size_t i = 0; i < n; ++i) l["l" + std::to_string(1000 + i)] = i == odd ? other : "v";
    } else {
      static const size_t sizes[] = {65, 257, 1025, 5000};
      std::string v(sizes[s.draw(4)], 'b');
      switch (s.draw(4)) {
        case 0: v[0] = 'c'; break;
        case 1: v[v.size() / 2] = 'c'; break;
        case 2: v.back() = 'c'; break;
        default: break;
      }
      l["a"] = v;
    }
    return l;
  }
  const size_t n = s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    std::string v;
    switch (s.weighted({4, 2, 1})) {
      case 0: {
        static const std::string vals[] = {"", "b", "a", "bc", "c", "ab", "1", "aa", "abc", "B"};
        v = vals[s.draw(10)];
        break;
      }
      case 1: {
        static const std::string vals[] = {
            std::string(1, '\0'), std::string("b\0", 2), std::string("b\0c", 3), "b,c", "b\",c=\"d",
            "b=", "=b", " b", "b ", "\n", "\xff", "\x01", std::string(200, 'b'), std::string(201, 'b')};
        v = binary ? vals[s.draw(14)] : vals[3];
        break;
      }
      default: v = gen::text(s, 8); break;
    }
    l[names[s.draw(8)]] = v;
  }
  return l;
}

// another label set that is the same text once names and values are joined
inline Labels joined(pbt::Source& s, const Labels& from) {
  static const std::string seps[] = {"",   ",", "=",    ";",  ":",  "|",    "/",     "\n",   " ",    "_",    "&",
                                     "\t", "-", "\x1f", "\x1e", "\xff", "=\"", "\",",  "\", ", "\x01", "\x02", ".",
                                     std::string(1, '\0'), std::string(2, '\0'), "\xff\xff", "->", "=>", "::", ", ", "#", "$", "@"};
  const size_t n = sizeof seps / sizeof *seps;
  // name, inner, value, outer, name, inner, value
  static const std::pair<const char*, const char*> usual[] = {{"=", ","}, {"=", ";"}, {":", ","}, {"=\"", "\","}, {"=", "&"}};
  std::string inner, outer;
  switch (s.draw(4)) {
    case 0: {
      auto& u = usual[s.draw(5)];
      inner = u.first;
      outer = u.second;
      break;
    }
    case 1: inner = outer = seps[s.draw(n)]; break;
    case 2: inner = outer = std::string(1, static_cast<char>(s.draw(256))); break;
    default:
      inner = seps[s.draw(n)];
      outer = seps[s.draw(n)];
  }
  if (from.size() < 2) {
    if (from.empty()) return {{"a", inner}};
    Labels l;  // the name goes on in the value, or the other way round
    const std::string& k = from.begin()->first;
    const std::string& v = from.begin()->second;
    if (k.size() > 1 && s.coin()) {
      l[k.substr(0, 1)] = k.substr(1) + v;
    } else {
      l[k] = v + outer + "b" + inner;
    }
    return l;
  }
  Labels l;
  const size_t at = s.draw(from.size() - 1);
  size_t i = 0;
  for (auto it = from.begin(); it != from.end(); ++it, ++i) {
    if (i == at) {
      auto next = std::next(it);
      l[it->first] = it->second + outer + next->first + inner + next->second;
      ++it;
      ++i;
    } else {
      l[it->first] = it->second;
    }
  }
  return l;
}

inline std::string keyOf(const std::vector<ClientMetric::Label>& l) {
  std::string r;
  for (auto& x : l) r += std::to_string(x.name.size()) + ":" + x.name + std::to_string(x.value.size()) + ":" + x.value + ";";
  return r;
}

inline std::vector<ClientMetric::Label> expected(const Labels& constant, const Labels& own) {
  std::vector<ClientMetric::Label> r;
  for (auto* m : {&constant, &own}) {
    for (auto& p : *m) {
      ClientMetric::Label x;
      x.name = p.first;
      x.value = p.second;
      r.push_back(x);
    }
  }
  return r;
}

}  // namespace kinds
