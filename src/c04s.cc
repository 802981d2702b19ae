// C04/C05: counters (or gauges with -DGAUGE) under arbitrary interleavings.
#include <ctime>
#include <memory>

#include "lin.h"
#include "pbt.h"
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "dsched.h"

using namespace prometheus;
using pbt::Source;

namespace {

#ifdef GAUGE
using Metric = Gauge;
double collected(const Metric& m) { return m.Collect().gauge.value; }
#else
using Metric = Counter;
double collected(const Metric& m) { return m.Collect().counter.value; }
#endif

enum Kind { Inc, IncBy, Dec, DecBy, Set, Read, CollectIt };

struct Op {
  Kind kind;
  size_t obj = 0;
  double arg = 0;
  double result = 0;
};

struct Model {
  double v = 0;
  bool apply(const Op& o) {
    switch (o.kind) {
      case Inc: v += 1; return true;
      case Dec: v -= 1; return true;
#ifdef GAUGE
      case IncBy: v += o.arg; return true;
#else
      case IncBy:
        if (o.arg > 0) v += o.arg;
        return true;
#endif
      case DecBy: v -= o.arg; return true;
      case Set: v = o.arg; return true;
      default: return o.result == v;
    }
  }
  std::string key() const {
    return std::string(reinterpret_cast<const char*>(&v), sizeof v);
  }
};

std::string show(const Op& op) {
  Op o = op;
  if (o.obj) {
    o.obj = 0;
    return "(the other one) " + show(o);
  }
  switch (o.kind) {
    case Inc: return "increment";
    case Dec: return "decrement";
    case IncBy: return "increment by " + pbt::num(o.arg);
    case DecBy: return "decrement by " + pbt::num(o.arg);
#ifdef GAUGE
    case Set: return "set " + pbt::num(o.arg);
#else
    case Set: return "reset";
#endif
    case Read: return "value -> " + pbt::num(o.result);
    default: return "collect -> " + pbt::num(o.result);
  }
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  const size_t threads = static_cast<size_t>(s.range(2, 4));
  const bool readers = s.chance(3, 4);
  const bool sets = s.chance(1, 3);
  std::vector<std::vector<Op>> plan(threads);
  const size_t objects = s.chance(1, 5) ? 2 : 1;
  size_t writes = 0;
  double start = 0;
#ifdef GAUGE
  if (s.coin()) start = static_cast<double>(s.range(-8, 8));
#endif
  for (size_t t = 0; t < threads; ++t) {
    size_t n = static_cast<size_t>(s.range(1, 4));
    for (size_t i = 0; i < n; ++i) {
      Op o;
      if (objects > 1) o.obj = s.coin() ? t % 2 : s.draw(2);
      // sums of such numbers are exact in any order
      double arg = static_cast<double>(s.range(-3, 12)) / 4;
      switch (s.weighted({3, 3, 2, sets ? 2u : 0u, readers ? 2u : 0u})) {
        case 0: o.kind = Inc; break;
        case 1: o.kind = IncBy; break;
        case 2: o.kind = s.coin() ? Dec : DecBy; break;
        case 3: o.kind = Set; break;
        default: o.kind = s.coin() ? Read : CollectIt; break;
      }
#ifndef GAUGE
      if (o.kind == Dec) o.kind = Inc;
      if (o.kind == DecBy) {  // ignored
        o.kind = IncBy;
        arg = -1.5;
      }
      if (o.kind == Set) arg = 0;
#endif
      o.arg = arg;
      writes += o.kind < Read;
      plan[t].push_back(o);
    }
  }
#ifdef GAUGE
  std::vector<std::unique_ptr<Metric>> ms;
  for (size_t i = 0; i < objects; ++i) ms.emplace_back(start == 0 ? new Metric() : new Metric(start));
#else
  std::vector<std::unique_ptr<Metric>> ms;
  for (size_t i = 0; i < objects; ++i) ms.emplace_back(new Metric());
#endif
  std::vector<lin::Event<Op>> history;
  history.reserve(32);
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      for (auto o : plan[t]) {
        uint64_t t0 = sched::now();
        sched::yield();
        Metric* m = ms[o.obj].get();
        switch (o.kind) {
          case Inc: m->Increment(); break;
          case IncBy: m->Increment(o.arg); break;
#ifdef GAUGE
          case Dec: m->Decrement(); break;
          case DecBy: m->Decrement(o.arg); break;
          case Set: m->Set(o.arg); break;
#else
          case Dec:
          case DecBy: break;
          case Set: m->Reset(); break;
#endif
          case Read: o.result = m->Value(); break;
          case CollectIt: o.result = collected(*m); break;
        }
        history.push_back({o, t0, sched::now(), static_cast<int>(t)});
        sched::yield();
      }
    });
  }
  for (size_t t = 0; t < threads; ++t) {
    for (auto& o : plan[t]) PBT_NOTE(s, "thread " << t << ": " << show(o));
  }
  sched::run(s, bodies);
  // what everybody sees afterwards
  for (size_t i = 0; i < objects; ++i) {
    std::vector<lin::Event<Op>> mine;
    for (auto& ev : history) {
      if (ev.op.obj == i) mine.push_back(ev);
    }
    Op last;
    last.kind = Read;
    last.obj = i;
    uint64_t end = sched::now();
    last.result = ms[i]->Value();
    mine.push_back({last, end, sched::now(), -1});
    Model initial;
    initial.v = start;
    lin::Checker<Op, Model> check(mine);
    if (!check.check(initial)) {
      std::string d = "no order of the operations explains the results:";
      for (auto& ev : mine) {
        d += "\n  [" + std::to_string(ev.invoked) + "," + std::to_string(ev.returned) + "] thread " +
             std::to_string(ev.thread) + ": " + show(ev.op);
      }
      fail(d);
    }
    PBT_NOTE(s, "final value " << last.result);
  }
  PBT_NOTE(s, "switches " << sched::stats().switches);
  if (sched::stats().switches > threads && writes > 1) s.nontrivial();
  if (objects > 1) s.cls("two metrics");
  if (sets) s.cls("with set/reset");
  if (readers) s.cls("with readers");
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
