// C10: lifetime totals and configured quantiles of a summary.
#include <chrono>
#include <cmath>
#include <memory>

#include "gen.h"
#include "pbt.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "vclock.h"

using namespace prometheus;
using pbt::Source;

namespace pbt {

void pbt_init() {
  if (!vclock::effective()) {
    fprintf(stderr, "clock is not virtual\n");
    _Exit(98);
  }
}

namespace {
struct Subject {
  Summary* sum = nullptr;
  std::vector<double> conf;
  uint64_t count = 0;
  double total = 0, magnitude = 0;
  bool exact = true;
};
}  // namespace

void pbt_case(Source& s) {
  struct Off {
    ~Off() { vclock::enabled = false; }
  } off;
  vclock::monotonic_ns = 5000000000 + s.range(0, 1ll << 40);
  vclock::realtime_ns = 1700000000000000000;
  vclock::enabled = true;
  Registry reg;
  auto& fam = BuildSummary().Name("s").Register(reg);
  std::vector<std::unique_ptr<Summary>> own;
  std::vector<Subject> subjects(1 + s.draw(3));
  for (size_t k = 0; k < subjects.size(); ++k) {
    auto& x = subjects[k];
    // the configuration does not outlive the construction
    auto q = std::unique_ptr<Summary::Quantiles>(new Summary::Quantiles);
    size_t nq = s.draw(6);
    if (const size_t more = gen::bulk(s, 60, 12)) nq = more;
    for (size_t i = 0; i < nq; ++i) {
      static const double common[] = {0.5, 0.9, 0.99, 0.25, 0.999, 0.1};
      double phi = s.coin() ? common[s.draw(6)] : static_cast<double>(s.range(1, 999)) / 1000;
      if (s.chance(1, 12)) phi = s.coin() ? 0 : 1;
      x.conf.push_back(phi);
      q->push_back({phi, static_cast<double>(s.range(1, 100)) / 1000});
    }
    const std::chrono::milliseconds age(s.range(1, 100000));
    const int buckets = static_cast<int>(s.chance(1, 15) ? s.range(1, 40) : s.range(1, 6));
    switch (s.draw(4)) {
      case 0: own.emplace_back(new Summary(*q)); break;
      case 1: own.emplace_back(new Summary(std::move(*q), age, buckets)); break;
      case 2: own.emplace_back(new Summary(*q, age, buckets)); break;
      default: {
        Labels l;
        l["k"] = std::to_string(k);
        x.sum = &fam.Add(l, *q, age, buckets);
      }
    }
    if (!x.sum) x.sum = own.back().get();
    for (auto& e : *q) e = {0.77, 0.3};  // nobody may look at it any more
    PBT_NOTE(s, "summary " << k << " with " << nq << " quantiles, age " << age.count() << " ms, "
                           << buckets << " buckets");
  }
  auto verify = [&](Subject& x) {
    auto m = x.sum->Collect();
    PBT_CHECK(m.summary.sample_count == x.count, "count is " << m.summary.sample_count
                                                              << " after " << x.count << " observations");
    const double got = m.summary.sample_sum;
    if (std::isnan(x.total)) {
      PBT_CHECK(std::isnan(got), "sum is " << got << " instead of NaN");
    } else if (std::isinf(x.total) || x.exact) {
      PBT_CHECK(got == x.total, "sum is " << got << " instead of " << x.total);
    } else {
      PBT_CHECK(std::fabs(got - x.total) <= 1e-12 * x.magnitude * static_cast<double>(x.count + 1),
                "sum is " << got << " instead of " << x.total);
    }
    PBT_CHECK(m.summary.quantile.size() == x.conf.size(),
              m.summary.quantile.size() << " quantiles instead of " << x.conf.size());
    for (size_t i = 0; i < x.conf.size(); ++i) {
      PBT_CHECK(m.summary.quantile[i].quantile == x.conf[i],
                "quantile " << i << " is " << m.summary.quantile[i].quantile << " instead of "
                            << x.conf[i]);
      if (x.count == 0) {
        PBT_CHECK(std::isnan(m.summary.quantile[i].value),
                  "quantile of nothing is " << m.summary.quantile[i].value);
      }
    }
    PBT_CHECK(m.label.empty() && m.timestamp_ms == 0, "label or timestamp from nowhere");
  };
  const bool wild = s.chance(1, 4);
  bool slept = false;
  size_t reads = 0, total = 0;
  const size_t steps = s.length(40);
  for (size_t i = 0; i < steps; ++i) {
    Subject& x = subjects[s.draw(subjects.size())];
    switch (s.weighted({5, 2, 2, 2})) {
      case 0: {
        double v;
        if (wild) {
          v = gen::finite(s);
          x.exact = false;
          if (std::fabs(v) > 1e300) v = s.coin() ? gen::kInf : -gen::kInf;
          if (s.chance(1, 40)) v = std::numeric_limits<double>::quiet_NaN();
          s.cls("wild values");
        } else {
          v = static_cast<double>(s.range(-100000, 100000)) / 256;
        }
        x.sum->Observe(v);
        x.count += 1;
        x.total += v;
        x.magnitude += std::fabs(v);
        ++total;
        PBT_NOTE(s, "observe " << v);
        break;
      }
      case 1: {  // fills and flushes the buffers
        size_t n = s.draw(1200);
        if (x.conf.size() < 8) n += gen::bulk(s, s.chance(1, 3) ? 150000 : 20000, 30);
        double v = static_cast<double>(s.range(-1000, 1000)) / 4;
        for (size_t k = 0; k < n; ++k) {
          x.sum->Observe(v);
          x.total += v;
          x.magnitude += std::fabs(v);
          v += 0.25;
        }
        x.count += n;
        total += n;
        if (n) s.cls("many observations");
        PBT_NOTE(s, "observe " << n << " values");
        break;
      }
      case 2: {
        int64_t d = s.range(0, 300000000000);
        vclock::monotonic_ns += d;
        slept = true;
        PBT_NOTE(s, "advance " << d << " ns");
        break;
      }
      default:
        verify(x);
        ++reads;
        break;
    }
  }
  for (auto& x : subjects) verify(x);
  if (slept) s.cls("time passed");
  if (total > 1 && reads) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
