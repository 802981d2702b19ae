// C08: the rank error of the quantiles of a summary.
#include <algorithm>
#include <chrono>
#include <cmath>

#include "gen.h"
#include "pbt.h"
#include "prometheus/summary.h"
#include "vclock.h"

using namespace prometheus;
using pbt::Source;

namespace {

// distance of the wanted rank from the ranks of v among the sorted data
double rankError(const std::vector<double>& sorted, double v, double q) {
  const double target = q * static_cast<double>(sorted.size());
  const auto lo = std::lower_bound(sorted.begin(), sorted.end(), v);
  const auto hi = std::upper_bound(sorted.begin(), sorted.end(), v);
  if (lo == hi) return -1;
  const double first = static_cast<double>(lo - sorted.begin()) + 1;
  const double last = static_cast<double>(hi - sorted.begin());
  if (target < first) return first - target;
  if (target > last) return target - last;
  return 0;
}

enum Pattern { Ascending, Uniform, Few, Descending, Alternating, Blocks, Equal, Doubles, kPatterns };
const char* patternNames[] = {"ascending", "random", "few distinct", "descending",
                              "alternating", "blocks", "equal", "any doubles"};

struct Data {
  Source& s;
  Pattern p;
  size_t n;
  uint64_t few, block;
  double scale;
  uint64_t lcg;
  double at(size_t i) {
    const double d = static_cast<double>(i);
    switch (p) {
      case Ascending: return scale * d;
      case Descending: return -scale * d;
      case Alternating: return i % 2 ? scale * d : -scale * d;
      case Blocks: return scale * (static_cast<double>((i / block) % 2 ? i : 100000 - i));
      case Equal: return scale;
      case Few: return scale * static_cast<double>(next() % few);
      case Doubles: {
        // derived from one draw, so that long sequences stay cheap
        double v = gen::fromBits(next());
        return std::isnan(v) ? 0.0 : v;
      }
      default: return scale * static_cast<double>(next() % 1000003);
    }
  }
  uint64_t next() {
    lcg += 0x9e3779b97f4a7c15ull;
    uint64_t z = lcg;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

}  // namespace

namespace pbt {

void pbt_init() {
  if (!vclock::effective()) {
    fprintf(stderr, "clock is not virtual\n");
    _Exit(98);
  }
  vclock::monotonic_ns = 1000000000000;
  vclock::realtime_ns = 1700000000000000000;
  vclock::enabled = true;
}

void pbt_case(Source& s) {
  const bool strict = s.coin();
  Summary::Quantiles q;
  std::vector<std::pair<double, double>> conf;
  const size_t nq = strict ? 1 : static_cast<size_t>(s.range(1, 4));
  for (size_t i = 0; i < nq; ++i) {
    static const double common[] = {0.5, 0.9, 0.99, 0.95, 0.1, 0.05, 0.25, 0.75, 0.999};
    double phi = s.chance(2, 3) ? common[s.draw(9)]
                                : static_cast<double>(s.range(1, 999)) / 1000;
    const double limit = std::min(phi, 1 - phi) / (strict ? 8 : 4);
    // from a hundredth of the limit up to the limit
    double eps = limit * static_cast<double>(s.range(1, 100)) / 100;
    conf.push_back({phi, eps});
    q.push_back({phi, eps});
  }
  Data d{s, Uniform, 0, 1, 1, 1.0, 0};
  d.p = strict ? static_cast<Pattern>(s.draw(3)) : static_cast<Pattern>(s.draw(kPatterns));
  d.n = static_cast<size_t>(s.range(0, s.chance(1, 4) ? 6000 : 1500));
  if (const size_t more = gen::bulk(s, 200000, 150)) d.n = more;
  d.few = static_cast<uint64_t>(s.range(1, 50));
  d.block = static_cast<uint64_t>(s.range(1, 700));
  d.scale = std::ldexp(1.0, static_cast<int>(s.range(-30, 30)));
  d.lcg = s.bits64();
  const size_t reads = strict ? 0 : s.draw(12);
  std::vector<size_t> readAt;
  for (size_t i = 0; i < reads; ++i) readAt.push_back(s.draw(d.n + 1));
  const bool frequent = !strict && s.chance(1, 8);
  const size_t every = static_cast<size_t>(s.range(1, 20));
  PBT_NOTE(s, (strict ? "strict " : "loose ") << patternNames[d.p] << " n=" << d.n
               << " few=" << d.few << " block=" << d.block << " reads=" << reads
               << " frequent=" << (frequent ? every : 0));
  for (auto& c : conf) PBT_NOTE(s, "quantile " << c.first << " error " << c.second);

  Summary sum(q, std::chrono::hours(1), static_cast<int>(s.range(1, 5)));
  std::vector<double> data;
  auto verify = [&] {
    auto m = sum.Collect().summary;
    PBT_CHECK(m.quantile.size() == conf.size(), "number of quantiles");
    std::vector<double> sorted = data;
    std::sort(sorted.begin(), sorted.end());
    const double n = static_cast<double>(data.size());
    for (size_t i = 0; i < conf.size(); ++i) {
      const double v = m.quantile[i].value;
      if (data.empty()) {
        PBT_CHECK(std::isnan(v), "quantile of nothing is " << v);
        continue;
      }
      const double e = rankError(sorted, v, conf[i].first);
      PBT_CHECK(e >= 0, "quantile " << conf[i].first << " is " << v
                                    << ", which was not observed");
      const double eps = conf[i].second;
      // calibrated with slack on millions of cases of the unchanged tree
      const bool tame = d.p == Uniform || d.p == Few || d.p == Ascending || d.p == Doubles;
      const double factor = strict ? 1.1 : (tame ? 2.5 : 4);
      const double slack = strict ? 8 : 10;
      const double allowed = factor * eps * n + slack;
      const double ratio = std::max(0.0, e - slack) / (eps * n);
      s.cls(std::string(strict ? "strict" : "loose") +
            (ratio > 3 ? " error >3" : ratio > 2 ? " error >2"
             : ratio > 1 ? " error >1" : ratio > 0.5 ? " error >1/2" : " error small") );
      PBT_NOTE(s, "after " << data.size() << ": quantile " << conf[i].first << " is " << v
                           << ", off by " << e << " ranks, allowed " << allowed);
      PBT_CHECK(e <= allowed, patternNames[d.p] << ": after " << data.size()
                << " observations quantile " << conf[i].first << " (error " << eps << ") is "
                << v << ", off by " << e << " ranks, allowed " << allowed);
    }
  };
  for (size_t i = 0; i < d.n; ++i) {
    if (std::find(readAt.begin(), readAt.end(), i) != readAt.end()) verify();
    if (frequent && i < 6000 && i % every == 0) {
      (void)sum.Collect();
    }
    double v = d.at(i);
    data.push_back(v);
    sum.Observe(v);
  }
  verify();
  s.cls(patternNames[d.p]);
  if (d.n > 500) s.cls("buffer flushed");
  if (d.n > 6000) s.cls("long");
  if (d.n > 20) s.nontrivial();
}

std::string pbt_known(const std::string& name) {
  if (name == "descending-p99") {
    Summary sum(Summary::Quantiles{{0.99, 0.01}}, std::chrono::hours(1), 5);
    std::vector<double> sorted;
    for (int i = 1001; i > 0; --i) sum.Observe(i);
    for (int i = 1; i <= 1001; ++i) sorted.push_back(i);
    double e = rankError(sorted, sum.Collect().summary.quantile[0].value, 0.99);
    if (e > 0.01 * 1001 + 4) {
      return "0.99 quantile with error 0.01 of 1001 descending observations is off by " +
             std::to_string(static_cast<int>(e)) + " ranks instead of at most 10";
    }
    return "";
  }
  return "unknown name";
}

}  // namespace pbt
