// C04: a counter is the exact sum of its non-negative increments.
#include <algorithm>
#include <cmath>

#include "gen.h"
#include "pbt.h"
#include "prometheus/counter.h"

using namespace prometheus;
using pbt::Source;

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  Counter c;
  double model = 0;
  size_t n = s.length(60);
  bool neg = false, frac = false;
  for (size_t i = 0; i < n; ++i) {
    const double before = c.Value();
    bool reset = false;
    switch (s.weighted({3, 6, 1, 1})) {
      case 0:
        c.Increment();
        model += 1;
        PBT_NOTE(s, "Increment()");
        break;
      case 1: {
        double v = gen::finite(s);
        if (s.chance(1, 20)) v = s.coin() ? gen::kInf : -gen::kInf;
        c.Increment(v);
        if (v > 0) model += v;
        if (v < 0) neg = true;
        if (v > 0 && v != std::floor(v)) frac = true;
        PBT_NOTE(s, "Increment(" << num(v) << ")");
        break;
      }
      case 2:
        c.Reset();
        model = 0;
        reset = true;
        PBT_NOTE(s, "Reset()");
        break;
      default: {
        auto m = c.Collect();
        PBT_CHECK(m.counter.value == c.Value(),
                  "collected " << m.counter.value << " but value is "
                               << c.Value());
        PBT_CHECK(m.label.empty() && m.timestamp_ms == 0,
                  "collected labels or a timestamp from nowhere");
        break;
      }
    }
    const double v = c.Value();
    PBT_CHECK(v == model, "value is " << v << ", the increments sum up to "
                                      << model);
    PBT_CHECK(reset || v >= before, "counter went from " << before << " down to "
                                                         << v);
  }
  if (neg) s.cls("negative increment");
  if (frac) s.cls("fractional increment");
  if (n > 2) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
