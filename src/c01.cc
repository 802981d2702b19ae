// C01: whatever is collected reads back from the exposition text.
#include <algorithm>
#include <sstream>

#include "expo.h"
#include "gen.h"
#include "pbt.h"
#include "prometheus/counter.h"
#include "prometheus/family.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;

namespace pbt {

void pbt_init() {}

static Histogram::BucketBoundaries bounds(Source& s) {
  Histogram::BucketBoundaries b;
  size_t n = s.draw(6);
  double x = static_cast<double>(s.range(-100, 100)) / 4.0;
  if (n && s.chance(1, 8)) {
    b.push_back(-gen::kInf);
  }
  for (size_t i = 0; i < n; ++i) {
    b.push_back(x);
    x += static_cast<double>(s.range(1, 1000)) / 8.0;
  }
  const size_t more = gen::bulk(s, 500, 30);
  for (size_t i = 0; i < more; ++i) b.push_back(x + static_cast<double>(i));
  if (s.chance(1, 6)) b.push_back(gen::kInf);
  return b;
}

// through the public API: registry -> collect -> text
static void viaRegistry(Source& s) {
  Registry reg(s.coin() ? Registry::InsertBehavior::Throw
                        : Registry::InsertBehavior::Merge);
  std::vector<MetricFamily> model;  // expected content, any order
  size_t n = s.range(1, 4);
  std::map<std::string, bool> used;
  for (size_t i = 0; i < n; ++i) {
    std::string name = gen::metricName(s) + "x" + std::to_string(i);
    MetricFamily f;
    f.name = name;
    f.help = s.chance(4, 5) ? gen::text(s, 60, 70000) : "";
    Labels constant;
    if (s.coin()) {
      for (auto& p : gen::labels(s, 2, true)) constant["c" + p.first] = p.second;
    }
    size_t metrics = s.draw(4);
    const size_t many = gen::bulk(s, 1000, 60);
    std::map<Labels, bool> seen;
    auto each = [&](auto add) {
      for (size_t k = 0; k < metrics + many; ++k) {
        Labels l;
        if (k >= metrics) {
          l["series"] = std::to_string(k);
        } else {
          for (auto& p : gen::labels(s, 3, true)) l["v" + p.first] = p.second;
        }
        if (seen[l]) continue;
        seen[l] = true;
        ClientMetric m;
        for (auto& p : constant) {
          ClientMetric::Label x;
          x.name = p.first;
          x.value = p.second;
          m.label.push_back(x);
        }
        for (auto& p : l) {
          ClientMetric::Label x;
          x.name = p.first;
          x.value = p.second;
          m.label.push_back(x);
        }
        add(l, m);
        f.metric.push_back(m);
      }
    };
    switch (s.draw(5)) {
      case 0: {
        f.type = MetricType::Counter;
        auto& fam = BuildCounter().Name(name).Help(f.help).Labels(constant)
                        .Register(reg);
        each([&](const Labels& l, ClientMetric& m) {
          double v = static_cast<double>(s.draw(1000)) / 8;
          fam.Add(l).Increment(v);
          m.counter.value = v;
        });
        break;
      }
      case 1: {
        f.type = MetricType::Gauge;
        auto& fam = BuildGauge().Name(name).Help(f.help).Labels(constant)
                        .Register(reg);
        each([&](const Labels& l, ClientMetric& m) {
          double v = gen::any(s);
          fam.Add(l).Set(v);
          m.gauge.value = v;
        });
        break;
      }
      case 2: {
        f.type = MetricType::Info;
        auto& fam = BuildInfo().Name(name).Help(f.help).Labels(constant)
                        .Register(reg);
        each([&](const Labels& l, ClientMetric& m) {
          fam.Add(l);
          m.info.value = 1;
        });
        break;
      }
      case 3: {
        f.type = MetricType::Summary;
        auto& fam = BuildSummary().Name(name).Help(f.help).Labels(constant)
                        .Register(reg);
        each([&](const Labels& l, ClientMetric& m) {
          auto& sum = fam.Add(l, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}});
          double v = static_cast<double>(s.range(-100, 100));
          size_t times = s.draw(4);
          for (size_t k = 0; k < times; ++k) sum.Observe(v);
          m.summary.sample_count = times;
          m.summary.sample_sum = v * static_cast<double>(times);
          for (double q : {0.5, 0.9}) {
            ClientMetric::Quantile x;
            x.quantile = q;
            x.value = times ? v : gen::nan();
            m.summary.quantile.push_back(x);
          }
        });
        break;
      }
      default: {
        f.type = MetricType::Histogram;
        auto& fam = BuildHistogram().Name(name).Help(f.help).Labels(constant)
                        .Register(reg);
        each([&](const Labels& l, ClientMetric& m) {
          auto b = bounds(s);
          auto& h = fam.Add(l, b);
          size_t obs = s.draw(6);
          std::vector<double> vals;
          double sum = 0;
          for (size_t k = 0; k < obs; ++k) {
            vals.push_back(static_cast<double>(s.range(-300, 300)) / 4);
            sum += vals.back();
            h.Observe(vals.back());
          }
          m.histogram.sample_count = obs;
          m.histogram.sample_sum = sum;
          if (b.empty() || b.back() != gen::kInf) b.push_back(gen::kInf);
          for (double u : b) {
            ClientMetric::Bucket x;
            x.upper_bound = u;
            for (double v : vals) x.cumulative_count += v <= u;
            m.histogram.bucket.push_back(x);
          }
        });
        break;
      }
    }
    if (!f.metric.empty()) {
      model.push_back(f);
      s.cls(std::string("registry:") + gen::typeName(f.type));
      PBT_NOTE(s, "registered " << gen::show(f));
    }
  }
  const std::string text = TextSerializer{}.Serialize(reg.Collect());
  // bring the model into the order of the document
  auto doc = textparse::parse(text);
  std::vector<MetricFamily> ordered;
  for (auto& b : doc.blocks) {
    for (auto& f : model) {
      if (f.name + (f.type == MetricType::Info ? "_info" : "") == b.metric) {
        ordered.push_back(f);
      }
    }
  }
  PBT_CHECK(ordered.size() == model.size(),
            "registered families are missing in " << esc(text));
  expo::compare(text, ordered);
  if (!model.empty()) s.nontrivial();
}

void pbt_case(Source& s) {
  if (s.chance(1, 3)) {
    s.cls("via registry");
    viaRegistry(s);
    return;
  }
  gen::FamilyOptions o;
  o.large = true;
  auto fams = gen::families(s, 4, o);
  size_t samples = 0;
  bool escapes = false, stamped = false;
  for (auto& f : fams) {
    samples += f.metric.size();
    s.cls(gen::typeName(f.type));
    if (f.help.find_first_of("\\\n") != std::string::npos) escapes = true;
    for (auto& m : f.metric) {
      if (m.timestamp_ms) stamped = true;
      for (auto& l : m.label) {
        if (l.value.find_first_of("\\\n\"") != std::string::npos) {
          escapes = true;
        }
      }
    }
    PBT_NOTE(s, gen::show(f));
  }
  if (escapes) s.cls("needs escaping");
  if (stamped) s.cls("timestamps");
  if (samples && (escapes || stamped || samples > 2)) s.nontrivial();
  TextSerializer ser;
  const Serializer& base = ser;
  std::string text;
  if (s.coin()) {
    text = base.Serialize(fams);
  } else {
    std::ostringstream os;
    base.Serialize(os, fams);
    text = os.str();
  }
  PBT_NOTE(s, "text: " << esc(text));
  expo::compare(text, fams);
  if (!fams.empty() && s.coin()) {  // other families in the same place
    if (fams.size() == 1) {
      fams[0].name += "_z";
    } else {
      std::rotate(fams.begin(), fams.begin() + 1, fams.end());
    }
    const std::string again = base.Serialize(fams);
    PBT_NOTE(s, "rotated: " << esc(again));
    expo::compare(again, fams);
  }
}

std::string pbt_known(const std::string& name) {
  if (name == "adjacent-boundaries") {
    Registry reg;
    auto& h = BuildHistogram().Name("h").Register(reg).Add(
        {}, Histogram::BucketBoundaries{0.3, 0.30000000000000004});
    h.Observe(0.1);
    try {
      auto doc = textparse::parse(TextSerializer{}.Serialize(reg.Collect()));
      expo::checkUnique(doc);
    } catch (const Fail& f) {
      return f.msg;
    }
    return "";
  }
  return "unknown name";
}

}  // namespace pbt
