// C09: the sliding window of a summary, with a virtual clock.
#include <algorithm>
#include <chrono>
#include <cmath>
#include <memory>

#include "gen.h"
#include "pbt.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "vclock.h"

using namespace prometheus;
using pbt::Source;

namespace {

struct Obs {
  double v;
  int64_t t;
};

double rankError(const std::vector<double>& sorted, double v, double q) {
  const double target = q * static_cast<double>(sorted.size());
  const auto lo = std::lower_bound(sorted.begin(), sorted.end(), v);
  const auto hi = std::upper_bound(sorted.begin(), sorted.end(), v);
  if (lo == hi) return 1e9;
  const double first = static_cast<double>(lo - sorted.begin()) + 1;
  const double last = static_cast<double>(hi - sorted.begin());
  if (target < first) return first - target;
  if (target > last) return target - last;
  return 0;
}

}  // namespace

namespace pbt {

void pbt_init() {
  if (!vclock::effective()) {
    fprintf(stderr, "clock is not virtual\n");
    _Exit(98);
  }
}

void pbt_case(Source& s) {
  struct Off {
    ~Off() { vclock::enabled = false; }
  } off;
  vclock::monotonic_ns = 5000000000 + s.range(0, 1ll << 40);
  vclock::realtime_ns = 1700000000000000000 + s.range(0, 1ll << 50);
  vclock::enabled = true;
  const bool jumpy = s.chance(1, 4);  // somebody adjusts the wall clock
  if (jumpy) s.cls("wall clock jumps");

  int64_t age = 60000, buckets = 5;
  const bool defaults = s.chance(1, 6);
  if (!defaults) {
    switch (s.draw(4)) {
      case 0: age = s.range(1, 20) * 1000; break;
      case 1: age = s.range(1, 1000); break;
      case 2: age = s.range(1, 86400000); break;
      default: age = s.range(1, 10) * 60000; break;
    }
    buckets = s.chance(1, 10) ? s.range(1, 70) : s.range(1, 6);
  } else {
    s.cls("default window");
  }
  if (buckets == 1) s.cls("one age bucket");
  static const double phis[] = {0.5, 0.1, 0.9, 0.25, 0.02, 0.98};
  Summary::Quantiles q;
  std::vector<double> conf;
  const size_t nq = static_cast<size_t>(s.range(1, 3));
  for (size_t i = 0; i < nq; ++i) {
    conf.push_back(phis[s.draw(6)]);
    q.push_back({conf.back(), 0.001});
  }
  PBT_NOTE(s, "max age " << age << " ms, " << buckets << " buckets");

  const std::chrono::milliseconds maxAge(age);
  std::unique_ptr<Summary> own;
  Registry reg;
  Summary* sum;
  const bool moved = s.coin();
  if (s.chance(1, 4)) {
    s.cls("from a family");
    auto& fam = BuildSummary().Name("s").Register(reg);
    sum = defaults ? (moved ? &fam.Add({{"a", "b"}}, Summary::Quantiles(q)) : &fam.Add({{"a", "b"}}, q))
                   : &fam.Add({{"a", "b"}}, q, maxAge, static_cast<int>(buckets));
  } else {
    if (moved) {
      own.reset(defaults ? new Summary(Summary::Quantiles(q))
                         : new Summary(Summary::Quantiles(q), maxAge, static_cast<int>(buckets)));
    } else {
      own.reset(defaults ? new Summary(q) : new Summary(q, maxAge, static_cast<int>(buckets)));
    }
    sum = own.get();
  }

  const int64_t window = age * 1000000;
  const int64_t interval = window / buckets;
  std::vector<Obs> obs;
  const int order = static_cast<int>(s.draw(4));  // of the values over time
  int64_t idle = 0;
  bool expired = false, kept = false, longIdle = false;
  const size_t steps = s.length(40);
  auto verify = [&] {
    const int64_t now = vclock::monotonic_ns;
    auto m = sum->Collect().summary;
    PBT_CHECK(m.quantile.size() == conf.size(), "number of quantiles");
    // obs[k..] for lo <= k <= hi are the possible windows
    size_t lo = 0, hi = 0;
    while (lo < obs.size() && now - obs[lo].t > window) ++lo;
    while (hi < obs.size() && now - obs[hi].t >= window - interval - buckets) ++hi;
    if (lo > 0) expired = true;
    if (hi < obs.size()) kept = true;
    if (s.describing()) {
      std::string d = "collect, window from observation " + std::to_string(lo) + ".." +
                      std::to_string(hi) + " of " + std::to_string(obs.size()) + ":";
      for (size_t i = 0; i < conf.size(); ++i) {
        d += " q" + num(conf[i]) + "=" + num(m.quantile[i].value);
      }
      s.note(d);
    }
    std::string why;
    for (size_t k = lo; k <= hi; ++k) {
      std::vector<double> sorted;
      for (size_t i = k; i < obs.size(); ++i) sorted.push_back(obs[i].v);
      std::sort(sorted.begin(), sorted.end());
      bool fits = true;
      for (size_t i = 0; i < conf.size() && fits; ++i) {
        const double v = m.quantile[i].value;
        if (sorted.empty()) {
          fits = std::isnan(v);
        } else {
          fits = !std::isnan(v) &&
                 rankError(sorted, v, conf[i]) <= 3 + 0.005 * static_cast<double>(sorted.size());
        }
      }
      if (fits) return;
    }
    for (size_t i = 0; i < conf.size(); ++i) {
      why += " q" + num(conf[i]) + "=" + num(m.quantile[i].value);
    }
    fail("the quantiles" + why + " fit no window: observations of up to " +
         std::to_string(window - interval) + " ns have to be included, those older than " +
         std::to_string(window) + " ns must not be; " + std::to_string(obs.size() - hi) +
         " have to be, " + std::to_string(obs.size() - lo) + " may be included");
  };
  for (size_t i = 0; i < steps; ++i) {
    switch (s.weighted({4, 4, 3})) {
      case 0: {
        const size_t n = s.chance(1, 20) ? s.draw(700) : s.length(25);
        PBT_NOTE(s, "observe " << n << " values");
        for (size_t k = 0; k < n; ++k) {
          double x = static_cast<double>(obs.size());
          double v = order == 0   ? x
                     : order == 1 ? -x
                     : order == 2 ? static_cast<double>((obs.size() * 7919 + 13) % 100003)
                                  : static_cast<double>(s.range(-5, 5));
          sum->Observe(v);
          obs.push_back({v, vclock::monotonic_ns});
        }
        idle = 0;
        break;
      }
      case 1: {
        int64_t d = 0;
        switch (s.draw(6)) {
          case 0: d = s.range(0, interval / 4); break;
          case 1: d = interval + s.range(-2, 2); break;
          case 2: d = interval * s.range(0, buckets + 2) + s.range(-1, 1); break;
          case 3: d = s.range(0, window); break;
          case 4: d = window + s.range(-3, 3); break;
          default: d = window * s.range(1, 50) + s.range(0, interval); break;
        }
        if (d < 0) d = 0;
        vclock::monotonic_ns += d;
        vclock::realtime_ns += d;
        if (jumpy && s.coin()) vclock::realtime_ns += s.range(-(1ll << 55), 1ll << 55);
        idle += d;
        if (idle > window) longIdle = true;
        PBT_NOTE(s, "advance " << d << " ns");
        break;
      }
      default: verify(); break;
    }
  }
  verify();
  if (expired) s.cls("something expired");
  if (kept) s.cls("something kept");
  if (expired && kept) s.cls("expired and kept");
  if (longIdle) s.cls("idle longer than the window");
  if (obs.size() > 2 && (expired || kept)) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
