// C05: a gauge holds exactly what the history of its operations says.
#include <cmath>
#include <cstdlib>
#include <ctime>

#include "gen.h"
#include "pbt.h"
#include "prometheus/gauge.h"
#include "vclock.h"

using namespace prometheus;
using pbt::Source;

namespace pbt {

void pbt_init() {
  if (!vclock::effective()) {
    fprintf(stderr, "clock is not virtual\n");
    _Exit(98);
  }
}

static const char* const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45",
                                    "<+14>-14", "<-12>12"};

static bool same(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}

void pbt_case(Source& s) {
  double model = 0;
  Gauge zero;
  double start = s.coin() ? gen::any(s) : 0.0;
  Gauge started(start);
  const bool useStart = s.coin();
  Gauge& g = useStart ? started : zero;
  if (useStart) model = start;
  PBT_NOTE(s, "start " << model);
  PBT_CHECK(same(g.Value(), model), "a new gauge holds " << g.Value());
  size_t n = s.length(60);
  for (size_t i = 0; i < n; ++i) {
    std::string what;
    switch (s.weighted({2, 2, 4, 4, 3, 2, 2})) {
      case 0:
        g.Increment();
        model += 1;
        what = "Increment()";
        break;
      case 1:
        g.Decrement();
        model -= 1;
        what = "Decrement()";
        break;
      case 2: {
        double v = gen::any(s);
        g.Increment(v);
        model += v;
        what = "Increment(" + num(v) + ")";
        break;
      }
      case 3: {
        double v = gen::any(s);
        g.Decrement(v);
        model -= v;
        what = "Decrement(" + num(v) + ")";
        break;
      }
      case 4: {
        double v = gen::any(s);
        g.Set(v);
        model = v;
        what = "Set(" + num(v) + ")";
        s.cls("set");
        break;
      }
      case 5: {
        // any time between 1970 and 2255
        int64_t sec = s.range(0, 9000000000);
        int64_t ns = s.range(0, 999999999);
        vclock::realtime_ns = sec * 1000000000 + ns;
        vclock::monotonic_ns = s.range(0, 1ll << 50);
        // the epoch is the same in every zone
        const char* zone = zones[s.draw(sizeof zones / sizeof *zones)];
        setenv("TZ", zone, 1);
        tzset();
        vclock::enabled = true;
        g.SetToCurrentTime();
        vclock::enabled = false;
        unsetenv("TZ");
        tzset();
        double v = g.Value();
        what = "SetToCurrentTime() at " + std::to_string(sec) + " in " + zone;
        // whole or fractional seconds
        PBT_CHECK(v >= static_cast<double>(sec) &&
                      v <= static_cast<double>(sec) + 1.0,
                  "time " << sec << " s is set as " << v);
        model = v;
        s.cls("current time");
        break;
      }
      default: {
        auto m = g.Collect();
        PBT_CHECK(same(m.gauge.value, model),
                  "collected " << m.gauge.value << " instead of " << model);
        PBT_CHECK(m.label.empty() && m.timestamp_ms == 0,
                  "collected labels or a timestamp from nowhere");
        break;
      }
    }
    if (!what.empty()) PBT_NOTE(s, what);
    PBT_CHECK(same(g.Value(), model), "value is " << g.Value()
                                                  << " instead of " << model
                                                  << " after " << what);
  }
  if (n > 2) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
