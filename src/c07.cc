// C07: a collected histogram or summary is a consistent snapshot.
#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>

#include "gen.h"
#include "lin.h"
#include "pbt.h"
#include "dsched.h"
#include "prometheus/histogram.h"
#include "prometheus/summary.h"

using namespace prometheus;
using pbt::Source;

namespace {

enum Kind { Observe, Multiple, Reset, Collect };

struct Op {
  Kind kind;
  size_t obj = 0;
  double value = 0;
  std::vector<double> inc;
  // results of Collect
  uint64_t count = 0;
  double sum = 0;
  std::vector<uint64_t> buckets;
  std::vector<double> quantiles;
};

std::string show(const Op& o) {
  std::ostringstream os;
  if (o.obj) os << "(the other one) ";
  switch (o.kind) {
    case Observe: os << "observe " << o.value; break;
    case Multiple:
      os << "observe multiple";
      for (double d : o.inc) os << " " << d;
      os << " sum " << o.value;
      break;
    case Reset: os << "reset"; break;
    case Collect:
      os << "collect -> count " << o.count << " sum " << o.sum;
      for (auto c : o.buckets) os << " b" << c;
      for (auto q : o.quantiles) os << " q" << q;
      break;
  }
  return os.str();
}

struct HistModel {
  std::vector<double> bounds;
  std::vector<uint64_t> counts;
  double sum = 0;
  bool apply(const Op& o) {
    switch (o.kind) {
      case Observe: {
        size_t i = 0;
        while (i < bounds.size() && !(o.value <= bounds[i])) ++i;
        counts[i]++;
        sum += o.value;
        return true;
      }
      case Multiple:
        for (size_t i = 0; i < counts.size(); ++i) {
          counts[i] += static_cast<uint64_t>(o.inc[i]);
        }
        sum += o.value;
        return true;
      case Reset:
        for (auto& c : counts) c = 0;
        sum = 0;
        return true;
      default: {
        uint64_t cum = 0;
        if (o.buckets.size() != counts.size()) return false;
        for (size_t i = 0; i < counts.size(); ++i) {
          cum += counts[i];
          if (o.buckets[i] != cum) return false;
        }
        return o.count == cum && o.sum == sum;
      }
    }
  }
  std::string key() const {
    std::string r(reinterpret_cast<const char*>(&sum), sizeof sum);
    for (auto c : counts) r += std::to_string(c) + ",";
    return r;
  }
};

struct SummaryModel {
  std::vector<double> values;  // sorted
  bool apply(const Op& o) {
    if (o.kind == Observe) {
      values.insert(std::upper_bound(values.begin(), values.end(), o.value),
                    o.value);
      return true;
    }
    double sum = 0;
    for (double v : values) sum += v;
    if (o.count != values.size() || o.sum != sum) return false;
    for (double q : o.quantiles) {
      if (values.empty() ? !std::isnan(q)
                         : std::find(values.begin(), values.end(), q) == values.end()) {
        return false;
      }
    }
    return true;
  }
  std::string key() const {
    return std::string(reinterpret_cast<const char*>(values.data()),
                       values.size() * sizeof(double));
  }
};

template <class Model>
void judge(const std::vector<lin::Event<Op>>& history, const Model& initial) {
  lin::Checker<Op, Model> check(history);
  if (check.check(initial)) return;
  std::string d = "no order of the operations explains the snapshots:";
  for (auto& e : history) {
    d += "\n  [" + std::to_string(e.invoked) + "," +
         std::to_string(e.returned) + "] thread " + std::to_string(e.thread) +
         ": " + show(e.op);
  }
  pbt::fail(d);
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  const bool summary = s.chance(1, 3);
  s.cls(summary ? "summary" : "histogram");
  Histogram::BucketBoundaries b;
  Summary::Quantiles qs;
  if (summary) {
    qs = {{0.5, 0.05}, {0.9, 0.01}};
  } else {
    size_t n = s.draw(4);
    for (size_t i = 0; i < n; ++i) b.push_back(static_cast<double>(i));
  }
  // metrics are independent of each other
  const size_t objects = s.chance(1, 4) ? 2 : 1;
  std::vector<std::unique_ptr<Histogram>> h;
  std::vector<std::unique_ptr<Summary>> sum;
  // up to the size of internal buffers
  const size_t preload = summary && s.chance(1, 5) ? 490 + s.draw(20) : s.draw(3);
  for (size_t i = 0; i < objects; ++i) {
    h.emplace_back(summary ? nullptr : new Histogram(b));
    sum.emplace_back(summary ? new Summary(qs) : nullptr);
    for (size_t k = 0; k < preload; ++k) summary ? sum[i]->Observe(1) : h[i]->Observe(1);
  }
  if (preload > 400) s.cls("preloaded");
  if (objects > 1) s.cls("two metrics");

  const size_t threads = static_cast<size_t>(s.range(2, 4));
  std::vector<std::vector<Op>> plan(threads);
  size_t collects = 0, writes = 0;
  const bool resets = s.chance(1, 3);
  for (size_t t = 0; t < threads; ++t) {
    size_t n = static_cast<size_t>(s.range(1, 3));
    for (size_t i = 0; i < n; ++i) {
      Op o;
      o.value = static_cast<double>(summary ? s.range(-50, 50) : s.range(-2, 10)) / 2;
      if (objects > 1) o.obj = s.coin() ? t % 2 : s.draw(2);
      switch (s.weighted({4, 3, summary ? 0u : 2u, summary || !resets ? 0u : 1u})) {
        case 0: o.kind = Observe; break;
        case 1: o.kind = Collect; break;
        case 2:
          o.kind = Multiple;
          for (size_t k = 0; k <= b.size(); ++k) {
            o.inc.push_back(static_cast<double>(s.draw(3)));
          }
          break;
        default: o.kind = Reset; break;
      }
      (o.kind == Collect ? collects : writes)++;
      plan[t].push_back(o);
    }
  }
  std::vector<lin::Event<Op>> history;
  history.reserve(32);
  auto collect = [&](Op& o) {
    if (summary) {
      auto m = sum[o.obj]->Collect().summary;
      o.count = m.sample_count;
      o.sum = m.sample_sum;
      for (auto& q : m.quantile) o.quantiles.push_back(q.value);
    } else {
      auto m = h[o.obj]->Collect().histogram;
      o.count = m.sample_count;
      o.sum = m.sample_sum;
      for (auto& x : m.bucket) o.buckets.push_back(x.cumulative_count);
    }
  };
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      for (auto o : plan[t]) {
        uint64_t t0 = sched::now();
        sched::yield();
        switch (o.kind) {
          case Observe: summary ? sum[o.obj]->Observe(o.value) : h[o.obj]->Observe(o.value); break;
          case Multiple: h[o.obj]->ObserveMultiple(o.inc, o.value); break;
          case Reset: h[o.obj]->Reset(); break;
          case Collect: collect(o); break;
        }
        uint64_t t1 = sched::now();
        history.push_back({o, t0, t1, static_cast<int>(t)});
        sched::yield();
      }
    });
  }
  for (size_t t = 0; t < threads; ++t) {
    for (auto& o : plan[t]) PBT_NOTE(s, "thread " << t << ": " << show(o));
  }
  sched::run(s, bodies);
  for (size_t i = 0; i < objects; ++i) {
    std::vector<lin::Event<Op>> mine;
    for (auto& ev : history) {
      if (ev.op.obj == i) mine.push_back(ev);
    }
    Op last;
    last.kind = Collect;
    last.obj = i;
    uint64_t end = sched::now();
    collect(last);
    mine.push_back({last, end, sched::now(), -1});
    if (summary) {
      SummaryModel m;
      m.values.assign(preload, 1);
      judge(mine, m);
    } else {
      HistModel m;
      m.bounds = b;
      m.counts.assign(b.size() + 1, 0);
      Op before;
      before.kind = Observe;
      before.value = 1;
      for (size_t k = 0; k < preload; ++k) m.apply(before);
      judge(mine, m);
    }
  }
  PBT_NOTE(s, "switches " << sched::stats().switches);
  if (collects) s.cls("concurrent collects");
  if (sched::stats().switches > threads && collects && writes) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
