// C02: numbers survive the exposition text.
#include <sstream>

#include "expo.h"
#include "gen.h"
#include "pbt.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;

namespace pbt {

void pbt_init() {}

static const char* kSlots[] = {"counter", "gauge", "untyped", "summary sum",
                               "quantile value", "histogram sum", "bound",
                               "quantile"};

static std::string render(double v, unsigned slot) {
  MetricFamily f;
  f.name = "m";
  ClientMetric m;
  switch (slot) {
    case 0:
      f.type = MetricType::Counter;
      m.counter.value = v;
      break;
    case 1:
      f.type = MetricType::Gauge;
      m.gauge.value = v;
      break;
    case 2:
      f.type = MetricType::Untyped;
      m.untyped.value = v;
      break;
    case 3:
      f.type = MetricType::Summary;
      m.summary.sample_sum = v;
      break;
    case 4: {
      f.type = MetricType::Summary;
      ClientMetric::Quantile q;
      q.quantile = 0.5;
      q.value = v;
      m.summary.quantile.push_back(q);
      break;
    }
    case 5:
      f.type = MetricType::Histogram;
      m.histogram.sample_sum = v;
      break;
    case 6: {
      f.type = MetricType::Histogram;
      ClientMetric::Bucket b;
      b.upper_bound = v;
      b.cumulative_count = 3;
      m.histogram.bucket.push_back(b);
      break;
    }
    default: {
      f.type = MetricType::Summary;
      ClientMetric::Quantile q;
      q.quantile = v;
      q.value = 7;
      m.summary.quantile.push_back(q);
      break;
    }
  }
  f.metric.push_back(m);
  auto doc = textparse::parse(TextSerializer{}.Serialize({f}));
  PBT_CHECK(doc.blocks.size() == 1, "expected one block");
  for (auto& s : doc.blocks[0].samples) {
    switch (slot) {
      case 0:
      case 1:
      case 2: return s.value;
      case 3:
      case 5:
        if (s.name == "m_sum") return s.value;
        break;
      case 4:
        if (s.labels.count("quantile")) return s.value;
        break;
      case 6:
        if (s.labels.count("le")) return s.labels.at("le");
        break;
      default:
        if (s.labels.count("quantile")) return s.labels.at("quantile");
        break;
    }
  }
  fail("slot is missing in the exposition");
}

static void checkCount(Source& s) {
  uint64_t v;
  switch (s.draw(4)) {
    case 0: v = s.draw(100000); break;
    case 1: v = s.bits64() >> s.draw(64); break;
    case 2: v = (1ull << (1 + s.draw(63))) - 1 + s.draw(3); break;
    default: v = ~0ull - s.draw(100); break;
  }
  uint64_t w = s.coin() ? v / 2 : v;
  MetricFamily f;
  f.name = "m";
  ClientMetric m;
  unsigned kind = static_cast<unsigned>(s.draw(2));
  if (kind == 0) {
    f.type = MetricType::Summary;
    m.summary.sample_count = v;
  } else {
    f.type = MetricType::Histogram;
    m.histogram.sample_count = v;
    ClientMetric::Bucket b;
    b.upper_bound = 1;
    b.cumulative_count = w;
    m.histogram.bucket.push_back(b);
  }
  f.metric.push_back(m);
  PBT_NOTE(s, "count " << v << " bucket " << w);
  auto doc = textparse::parse(TextSerializer{}.Serialize({f}));
  unsigned seen = 0;
  for (auto& x : doc.blocks.at(0).samples) {
    if (x.name == "m_count") {
      PBT_CHECK(textparse::toCount(x.value) == v,
                "count " << v << " is exposed as " << x.value);
      ++seen;
    } else if (x.labels.count("le")) {
      bool inf = x.labels.at("le") == "+Inf";
      PBT_CHECK(textparse::toCount(x.value) == (inf ? v : w),
                "bucket count is exposed as " << x.value);
      ++seen;
    }
  }
  PBT_CHECK(seen == (kind ? 3u : 1u), "counts are missing");
  s.cls("count");
  if (v > (1ull << 53)) s.cls("count beyond 2^53");
  if (v > 9) s.nontrivial();
}

// numbers next to each other: what is written before does not matter
static void checkDocument(Source& s) {
  std::vector<MetricFamily> fams;
  const size_t n = 1 + s.draw(4);
  size_t numbers = 0;
  for (size_t i = 0; i < n; ++i) {
    MetricFamily f;
    f.name = "m" + std::to_string(i) + "x";
    static const MetricType types[] = {
        MetricType::Gauge,     MetricType::Counter, MetricType::Untyped,
        MetricType::Histogram, MetricType::Summary, MetricType::Info};
    f.type = types[s.draw(6)];
    const size_t k = 1 + s.draw(3);
    for (size_t j = 0; j < k; ++j) {
      ClientMetric m;
      if (k > 1) {
        ClientMetric::Label l;
        l.name = "i";
        l.value = std::to_string(j);
        m.label.push_back(l);
      }
      if (s.chance(1, 4)) {
        m.timestamp_ms = static_cast<int64_t>(s.bits64() >> s.draw(64));
      }
      m.counter.value = m.gauge.value = m.untyped.value = gen::any(s);
      m.info.value = 1;
      m.summary.sample_sum = m.histogram.sample_sum = m.gauge.value;
      const uint64_t count = s.bits64() >> s.draw(64);
      m.summary.sample_count = m.histogram.sample_count = count;
      if (f.type == MetricType::Histogram) {
        std::map<double, bool> bounds;
        const size_t b = s.draw(6);
        for (size_t q = 0; q < b; ++q) bounds[gen::finite(s)] = true;
        if (s.chance(1, 4)) bounds[gen::kInf] = true;
        if (s.chance(1, 4)) bounds[-gen::kInf] = true;
        double last = 0;
        for (auto& p : bounds) {
          // neighbours that collapse are a known finding of C01
          if (!m.histogram.bucket.empty() && std::isfinite(p.first) &&
              std::isfinite(last) &&
              p.first - last <= 4e-15 * std::max(std::fabs(p.first),
                                                 std::fabs(last))) {
            continue;
          }
          last = p.first;
          ClientMetric::Bucket x;
          x.upper_bound = p.first;
          x.cumulative_count =
              p.first == gen::kInf ? count : count >> s.draw(64);
          m.histogram.bucket.push_back(x);
        }
        numbers += m.histogram.bucket.size();
      }
      if (f.type == MetricType::Summary) {
        const size_t b = s.draw(5);
        for (size_t q = 0; q < b; ++q) {
          ClientMetric::Quantile x;
          x.quantile = (static_cast<double>(q) +
                        static_cast<double>(s.draw(1u << 30)) * 0x1p-30) / 5;
          x.value = gen::any(s);
          m.summary.quantile.push_back(x);
        }
        numbers += b;
      }
      ++numbers;
      f.metric.push_back(m);
    }
    PBT_NOTE(s, gen::show(f));
    fams.push_back(f);
  }
  const std::string text = TextSerializer{}.Serialize(fams);
  PBT_NOTE(s, text);
  expo::compare(text, fams, false);
  s.cls("document");
  if (numbers > 2) s.nontrivial();
}

void pbt_case(Source& s) {
  if (s.chance(1, 6)) {
    checkCount(s);
    return;
  }
  if (s.chance(1, 4)) {
    checkDocument(s);
    return;
  }
  double v = gen::any(s);
  unsigned slot = static_cast<unsigned>(s.draw(8));
  if (slot >= 6 && std::isnan(v)) v = 1.25;
  if (slot == 6 && v == gen::kInf) v = 2.5;
  const std::string t = render(v, slot);
  PBT_NOTE(s, kSlots[slot] << " " << num(v) << " -> " << t);
  const double back = textparse::toDouble(t);
  PBT_CHECK(expo::sameNumber(v, back), kSlots[slot] << " " << num(v)
                                                    << " reads back as "
                                                    << num(back) << " (" << t
                                                    << ")");
  PBT_CHECK(std::isnan(v) || back == 0 || std::signbit(v) == std::signbit(back),
            "sign of " << num(v) << " is lost in " << t);
  s.cls(kSlots[slot]);
  if (std::isinf(v)) s.cls("infinity");
  if (std::isnan(v)) s.cls("nan");
  if (v == std::floor(v) && std::fabs(v) > 1e6 && std::fabs(v) <= 0x1p53) {
    s.cls("big integer");
  }
  if (v != 0 && std::fabs(v) < 2.3e-308) s.cls("subnormal");
  if (v != std::floor(v) || std::fabs(v) > 9) s.nontrivial();

  // the order of numbers survives (neighbouring bounds, values over time)
  if (!std::isnan(v) && s.coin()) {
    double w = v;
    switch (s.draw(4)) {
      case 0: w = gen::finite(s); break;
      case 1: w = v * (1 + 1e-15 * static_cast<double>(s.range(1, 100))); break;
      case 2: w = v + 1; break;
      default: w = std::nextafter(v, gen::kInf); break;
    }
    if (std::fabs(w) > 1.797693134862315e308 && std::isfinite(w)) w = v;
    if (w < v) std::swap(v, w);
    double a = textparse::toDouble(render(v, slot));
    double b = textparse::toDouble(render(w, slot == 6 && w == gen::kInf ? 0 : slot));
    PBT_CHECK(a <= b, num(v) << " <= " << num(w) << " but they are exposed as "
                             << num(a) << " and " << num(b));
    if (w > v && w - v > 2e-15 * std::fabs(v) && w - v > 2e-15 * std::fabs(w)) {
      PBT_CHECK(a < b, num(v) << " and " << num(w) << " collapse to "
                              << num(a));
    }
    s.cls("order");
  }
}

std::string pbt_known(const std::string& name) {
  if (name == "largest-double") {
    const double v = std::numeric_limits<double>::max();
    const std::string t = render(v, 1);
    double back = textparse::toDouble(t);
    if (!expo::sameNumber(v, back)) {
      return num(v) + " is exposed as " + t + ", which reads back as " +
             num(back);
    }
    return "";
  }
  return "unknown name";
}

}  // namespace pbt
