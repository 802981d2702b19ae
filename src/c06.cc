// C06: bucket semantics of histograms.
#include <algorithm>
#include <cmath>
#include <memory>
#include <stdexcept>

#include "gen.h"
#include "pbt.h"
#include "prometheus/histogram.h"

using namespace prometheus;
using pbt::Source;
using Bounds = Histogram::BucketBoundaries;

namespace pbt {

void pbt_init() {}

static std::string show(const Bounds& b) {
  std::string r = "[";
  for (double d : b) r += num(d) + " ";
  return r + "]";
}

static std::unique_ptr<Histogram> make(Source& s, const Bounds& b) {
  if (s.coin()) {
    Bounds copy = b;
    return std::unique_ptr<Histogram>(new Histogram(std::move(copy)));
  }
  return std::unique_ptr<Histogram>(new Histogram(b));
}

static double bound(Source& s) {
  switch (s.draw(5)) {
    case 0: return static_cast<double>(s.range(-20, 20));
    case 1: return static_cast<double>(s.range(-400, 400)) / 8;
    case 2: return gen::finite(s);
    case 3: return std::pow(10.0, static_cast<double>(s.range(-6, 6)));
    default: return s.chance(1, 4) ? (s.coin() ? gen::kInf : -gen::kInf) : 0.25;
  }
}

static void manyBounds(Source& s, Bounds& b, uint64_t oneIn) {
  const size_t more = gen::bulk(s, s.chance(1, 15) ? 70000 : 1000, oneIn);
  for (size_t i = 0; i < more; ++i) b.push_back(static_cast<double>(i) * 0.75 - 100);
}

static void rejects(Source& s) {
  Bounds b;
  size_t n = static_cast<size_t>(s.range(2, 8));
  for (size_t i = 0; i < n; ++i) b.push_back(bound(s));
  manyBounds(s, b, 20);
  std::sort(b.begin(), b.end());
  b.erase(std::unique(b.begin(), b.end()), b.end());
  switch (s.draw(4)) {
    case 0:  // duplicate
      b.insert(b.begin() + static_cast<long>(s.draw(b.size())),
               b[s.draw(b.size())]);
      break;
    case 1:  // swap
      if (b.size() >= 2) {
        size_t i = s.draw(b.size()), j = s.draw(b.size());
        std::swap(b[i], b[j]);
      }
      break;
    case 2:  // not a number somewhere
      if (b.size() >= 2) {
        b[s.draw(b.size())] = gen::nan();
      }
      break;
    default: break;
  }
  bool ok = true;
  for (size_t i = 1; i < b.size(); ++i) ok = ok && b[i - 1] < b[i];
  PBT_NOTE(s, "boundaries " << show(b));
  bool threw = false;
  try {
    make(s, b);
  } catch (const std::exception&) {
    threw = true;
  }
  PBT_CHECK(threw != ok, "boundaries " << show(b) << " are "
                                       << (threw ? "rejected" : "accepted"));
  s.cls(ok ? "valid boundaries" : "invalid boundaries");
  if (!ok) s.nontrivial();
}

void pbt_case(Source& s) {
  if (s.chance(1, 8)) {
    rejects(s);
    return;
  }
  Bounds b;
  size_t n = s.draw(9);
  for (size_t i = 0; i < n; ++i) b.push_back(bound(s));
  manyBounds(s, b, 40);
  std::sort(b.begin(), b.end());
  b.erase(std::unique(b.begin(), b.end()), b.end());
  PBT_NOTE(s, "boundaries " << show(b));
  auto h = make(s, b);

  // model: count per bucket (the last one for everything above), sum
  std::vector<uint64_t> counts(b.size() + 1, 0);
  double sum = 0;
  size_t ops = s.length(50), observed = 0;
  bool onBound = false;

  auto check = [&] {
    auto m = h->Collect();
    const auto& hist = m.histogram;
    PBT_CHECK(m.label.empty() && m.timestamp_ms == 0,
              "collected labels or a timestamp from nowhere");
    // the expected buckets: one per boundary and exactly one for +Inf
    std::vector<std::pair<double, uint64_t>> want;
    uint64_t cum = 0;
    for (size_t i = 0; i < counts.size(); ++i) {
      cum += counts[i];
      if (i < b.size() && b[i] != gen::kInf) {
        want.push_back({b[i], cum});
      }
    }
    want.push_back({gen::kInf, cum});
    PBT_CHECK(hist.bucket.size() == want.size(),
              "expected " << want.size() << " buckets, got "
                          << hist.bucket.size());
    for (size_t i = 0; i < want.size(); ++i) {
      PBT_CHECK(hist.bucket[i].upper_bound == want[i].first,
                "bucket " << i << " has bound " << hist.bucket[i].upper_bound
                          << " instead of " << want[i].first);
      PBT_CHECK(hist.bucket[i].cumulative_count == want[i].second,
                "bucket le=" << want[i].first << " counts "
                             << hist.bucket[i].cumulative_count
                             << " instead of " << want[i].second);
    }
    PBT_CHECK(hist.sample_count == cum,
              "sample count is " << hist.sample_count << " instead of " << cum);
    PBT_CHECK(hist.sample_sum == sum ||
                  (std::isnan(hist.sample_sum) && std::isnan(sum)),
              "sum is " << hist.sample_sum << " instead of " << sum);
  };

  for (size_t k = 0; k < ops; ++k) {
    switch (s.weighted({16, 4, 2, 4, 2, 1})) {
      case 5: {
        const size_t times = gen::bulk(s, 5000, 2);
        const double start = static_cast<double>(s.range(-100, 100)), step = s.coin() ? 0 : 0.25;
        PBT_NOTE(s, "Observe " << times << " values from " << start << " by " << step);
        for (size_t j = 0; j < times; ++j) {
          const double v = start + static_cast<double>(j) * step;
          h->Observe(v);
          counts[static_cast<size_t>(std::lower_bound(b.begin(), b.end(), v) - b.begin())]++;
          sum += v;
        }
        break;
      }
      case 0: {
        double v = 0;
        switch (s.draw(5)) {
          case 0: v = static_cast<double>(s.range(-100, 100)) / 4; break;
          case 1:
            if (!b.empty()) {
              v = b[s.draw(b.size())];
              onBound = true;
            }
            break;
          case 2:
            if (!b.empty()) {
              v = std::nextafter(b[s.draw(b.size())],
                                 s.coin() ? gen::kInf : -gen::kInf);
              onBound = true;
            }
            break;
          case 3: v = gen::finite(s); break;
          default: v = gen::any(s); break;
        }
        PBT_NOTE(s, "Observe(" << v << ")");
        h->Observe(v);
        size_t i = 0;
        while (i < b.size() && !(v <= b[i])) ++i;
        counts[i]++;
        sum += v;
        ++observed;
        if (std::isnan(v)) s.cls("observe NaN");
        if (std::isinf(v)) s.cls("observe infinity");
        break;
      }
      case 1: {
        std::vector<double> inc(counts.size());
        for (auto& x : inc) {
          x = static_cast<double>(s.chance(1, 8) ? s.draw(1ull << 40)
                                                 : s.draw(20));
        }
        const double v = s.chance(1, 3) ? gen::any(s) : static_cast<double>(s.range(-4000, 4000)) / 8;
        h->ObserveMultiple(inc, v);
        for (size_t i = 0; i < inc.size(); ++i) {
          counts[i] += static_cast<uint64_t>(inc[i]);
        }
        sum += v;
        ++observed;
        PBT_NOTE(s, "ObserveMultiple(" << show(inc) << ", " << v << ")");
        s.cls("several at once");
        break;
      }
      case 2: {  // wrong number of buckets: rejected as a whole
        std::vector<double> inc(s.draw(counts.size() + 4), 3.0);
        if (inc.size() == counts.size()) inc.push_back(1.0);
        bool threw = false;
        try {
          h->ObserveMultiple(inc, 7.5);
        } catch (const std::exception&) {
          threw = true;
        }
        PBT_NOTE(s, "ObserveMultiple with " << inc.size() << " increments");
        PBT_CHECK(threw, inc.size() << " increments are accepted for "
                                    << counts.size() << " buckets");
        s.cls("wrong size rejected");
        break;
      }
      case 3: check(); break;
      default:
        h->Reset();
        std::fill(counts.begin(), counts.end(), 0u);
        sum = 0;
        PBT_NOTE(s, "Reset()");
        s.cls("reset");
        break;
    }
  }
  check();
  if (onBound) s.cls("observation at a boundary");
  if (!b.empty() && b.back() == gen::kInf) s.cls("explicit +Inf boundary");
  if (observed >= 2 && !b.empty()) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
