// C14: families and registries under arbitrary interleavings.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "dsched.h"
#include "kinds.h"
#include "lin.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using kinds::Kind;
using pbt::Source;

namespace {

// Values are only compared by interval containment: an update that returned
// before a collect began is in, one that began after it returned is not.
struct Interval {
  uint64_t invoked, returned;
};

// ------------------------------------------------------------------ family --

enum FKind { FAdd, FRemove, FHas, FCollect, FUpdate, FMeta };

struct FOp {
  FKind kind;
  int label = 0;
  const void* ptr = nullptr;  // result of add, argument of remove
  bool has = false;
  std::vector<int> keys;
  std::vector<double> values;
};

Labels labelOf(int i) {
  Labels l;
  if (i > 0) l["l"] = std::to_string(i);
  if (i > 2) l["k"] = "";
  return l;
}

std::string show(const FOp& o) {
  std::ostringstream os;
  switch (o.kind) {
    case FAdd: os << "add " << o.label << " -> " << o.ptr; break;
    case FRemove: os << "remove " << o.ptr << " (" << o.label << ")"; break;
    case FHas: os << "has " << o.label << " -> " << o.has; break;
    case FUpdate: os << "update " << o.label; break;
    case FMeta: os << "name and labels"; break;
    case FCollect:
      os << "collect ->";
      for (size_t i = 0; i < o.keys.size(); ++i) os << " " << o.keys[i] << "=" << o.values[i];
      break;
  }
  return os.str();
}

struct FModel {
  std::map<int, const void*> m;
  bool apply(const FOp& o) {
    switch (o.kind) {
      case FAdd: {
        auto it = m.find(o.label);
        if (it != m.end()) return it->second == o.ptr;
        for (auto& e : m) {
          if (e.second == o.ptr) return false;
        }
        m[o.label] = o.ptr;
        return true;
      }
      case FRemove:
        for (auto it = m.begin(); it != m.end(); ++it) {
          if (it->second == o.ptr) {
            m.erase(it);
            break;
          }
        }
        return true;
      case FHas: return (m.count(o.label) > 0) == o.has;
      case FCollect: {
        if (o.keys.size() != m.size()) return false;
        size_t i = 0;
        for (auto& e : m) {
          if (o.keys[i++] != e.first) return false;
        }
        return true;
      }
      default: return true;
    }
  }
  std::string key() const {
    std::ostringstream os;
    for (auto& e : m) os << e.first << "=" << e.second << ";";
    return os.str();
  }
};

template <class Op>
std::string explain(const std::string& head, const std::vector<lin::Event<Op>>& h) {
  std::string d = head;
  for (auto& e : h) {
    d += "\n  [" + std::to_string(e.invoked) + "," + std::to_string(e.returned) + "] thread " +
         std::to_string(e.thread) + ": " + show(e.op);
  }
  return d;
}

template <class T>
void familyCase(Source& s) {
  using K = Kind<T>;
  s.cls(std::string("family of ") + K::name);
  const size_t threads = static_cast<size_t>(s.range(2, 4));
  std::vector<std::vector<FOp>> plan(threads);
  // labels below 2 are never removed and may be updated
  size_t writes = 0;
  for (size_t t = 0; t < threads; ++t) {
    const size_t n = static_cast<size_t>(s.range(1, 4));
    for (size_t i = 0; i < n; ++i) {
      FOp o;
      o.label = static_cast<int>(s.draw(4));
      switch (s.weighted({4, 3, 2, 2, 2, 1})) {
        case 0: o.kind = FAdd; break;
        case 1: o.kind = FCollect; break;
        case 2: o.kind = FHas; break;
        case 3:
          o.kind = FRemove;
          o.label = static_cast<int>(2 + s.draw(2));
          break;
        case 4:
          o.kind = FUpdate;
          o.label = static_cast<int>(s.draw(2));
          break;
        default: o.kind = FMeta; break;
      }
      writes += o.kind == FAdd || o.kind == FRemove;
      plan[t].push_back(o);
      PBT_NOTE(s, "thread " << t << ": " << show(o));
    }
  }
  Labels constant;
  if (s.coin()) constant["c"] = "v";
  auto f = std::unique_ptr<Family<T>>(new Family<T>("m", "h", constant));
  FModel initial;
  for (int i = 0; i < 4; ++i) {
    if (s.chance(1, 3)) initial.m[i] = &K::add(*f, labelOf(i), 0);
  }
  auto parse = [&](FOp& o) {
    auto c = f->Collect();
    std::vector<std::pair<int, double>> got;
    for (auto& fam : c) {
      for (auto& m : fam.metric) {
        int found = -1;
        for (int i = 0; i < 4; ++i) {
          if (kinds::keyOf(m.label) == kinds::keyOf(kinds::expected(constant, labelOf(i)))) found = i;
        }
        got.push_back({found, K::read(m).value});
      }
    }
    std::sort(got.begin(), got.end());
    for (auto& g : got) {
      o.keys.push_back(g.first);
      o.values.push_back(g.second);
    }
  };
  std::vector<std::vector<lin::Event<FOp>>> logs(threads);
  for (auto& l : logs) l.reserve(16);
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      std::map<int, const void*> mine;
      for (auto o : plan[t]) {
        FOp pre;
        const uint64_t t0 = sched::now();
        sched::yield();
        switch (o.kind) {
          case FAdd:
            o.ptr = &K::add(*f, labelOf(o.label), 0);
            mine[o.label] = o.ptr;
            break;
          case FRemove:
            // of what this thread has seen, or was there before
            o.ptr = mine.count(o.label) ? mine[o.label]
                    : initial.m.count(o.label) ? initial.m[o.label] : nullptr;
            f->Remove(static_cast<T*>(const_cast<void*>(o.ptr)));
            break;
          case FHas: o.has = f->Has(labelOf(o.label)); break;
          case FUpdate: {
            kinds::State dummy;
            T& m = K::add(*f, labelOf(o.label), 0);
            o.ptr = &m;
            // the addition is an operation of its own
            pre.kind = FAdd;
            pre.label = o.label;
            pre.ptr = o.ptr;
            logs[t].push_back({pre, t0, sched::now(), static_cast<int>(t)});
            const uint64_t t1 = sched::now();
            sched::yield();
            K::update(m, dummy, 1);
            logs[t].push_back({o, t1, sched::now(), static_cast<int>(t)});
            break;
          }
          case FCollect: parse(o); break;
          case FMeta:
            if (f->GetName() != "m" || f->GetConstantLabels() != constant) pbt::fail("name or constant labels");
            break;
        }
        if (o.kind != FUpdate) logs[t].push_back({o, t0, sched::now(), static_cast<int>(t)});
        sched::yield();
      }
    });
  }
  sched::run(s, bodies);
  FOp last;
  last.kind = FCollect;
  const uint64_t t0 = sched::now();
  parse(last);
  std::vector<lin::Event<FOp>> history;
  std::vector<std::pair<int, Interval>> updates;
  for (auto& l : logs) {
    for (auto& e : l) {
      if (e.op.kind == FUpdate) updates.push_back({e.op.label, {e.invoked, e.returned}});
      if (e.op.kind != FUpdate && e.op.kind != FMeta) history.push_back(e);
    }
  }
  history.push_back({last, t0, sched::now(), -1});
  lin::Checker<FOp, FModel> check(history);
  if (!check.check(initial)) {
    pbt::fail(explain("no order of the operations explains the results:", history));
  }
  for (auto& e : history) {
    if (e.op.kind != FCollect) continue;
    for (size_t i = 0; i < e.op.keys.size(); ++i) {
      double lo = 0, hi = 0;
      for (auto& u : updates) {
        if (u.first != e.op.keys[i]) continue;
        if (u.second.returned < e.invoked) lo += 1;
        if (u.second.invoked < e.returned) hi += 1;
      }
      PBT_CHECK(e.op.values[i] >= lo && e.op.values[i] <= hi,
                "collected value " << e.op.values[i] << " of metric " << e.op.keys[i] << " is not in [" << lo
                                   << ", " << hi << "]");
    }
  }
  PBT_NOTE(s, "switches " << sched::stats().switches);
  if (sched::stats().switches > threads && writes > 1) s.nontrivial();
}

// ---------------------------------------------------------------- registry --

enum RKind { RRegister, RRemove, RCollect };

struct ROp {
  RKind kind;
  int type = 0;  // 0 counter, 1 gauge, 2 histogram, 3 summary, 4 info
  int name = 0;
  bool constant = false;
  const void* ptr = nullptr;  // null: thrown
  bool removed = false;
  std::vector<int> present;  // prepared families that were collected
  std::vector<std::pair<std::string, double>> values;
};

// names below 3 are prepared, populated and may be removed by one thread,
// 3..6 belong to one thread, which registers and removes them; the others
// are shared and never removed
std::string nameOf(int n) {
  return (n < 3 ? "p" : n < 7 ? "v" : "n") + std::to_string(n);
}

std::string show(const ROp& o) {
  std::ostringstream os;
  static const char* types[] = {"counter", "gauge", "histogram", "summary", "info"};
  switch (o.kind) {
    case RRegister:
      os << "register " << types[o.type] << " " << nameOf(o.name) << (o.constant ? "{c}" : "") << " -> " << o.ptr;
      break;
    case RRemove: os << "remove " << nameOf(o.name) << " " << o.ptr << " -> " << o.removed; break;
    case RCollect:
      os << "collect ->";
      for (auto p : o.present) os << " " << nameOf(p);
      for (auto& v : o.values) os << " " << v.first << "=" << v.second;
      break;
  }
  return os.str();
}

struct RModel {
  bool merge = true;
  struct F {
    int type;
    bool constant, prepared;
    const void* ptr;
  };
  std::map<int, F> m;
  bool apply(const ROp& o) {
    switch (o.kind) {
      case RRegister: {
        auto it = m.find(o.name);
        if (it == m.end()) {
          if (!o.ptr) return false;
          for (auto& e : m) {
            if (e.second.ptr == o.ptr) return false;
          }
          m[o.name] = {o.type, o.constant, false, o.ptr};
          return true;
        }
        const bool same = merge && it->second.type == o.type && it->second.constant == o.constant;
        return same ? it->second.ptr == o.ptr : o.ptr == nullptr;
      }
      case RRemove: {
        auto it = m.find(o.name);
        const bool found = it != m.end() && it->second.ptr == o.ptr;
        if (found) m.erase(it);
        return found == o.removed;
      }
      default: {
        std::vector<int> p;
        for (auto& e : m) {
          if (e.second.prepared) p.push_back(e.first);
        }
        return p == o.present;
      }
    }
  }
  std::string key() const {
    std::ostringstream os;
    for (auto& e : m) os << e.first << "=" << e.second.ptr << "," << e.second.prepared << ";";
    return os.str();
  }
};

template <class T>
const void* doRegister(Registry& r, const ROp& o) {
  Labels c;
  if (o.constant) c["c"] = "v";
  try {
    return &Kind<T>::builder().Name(nameOf(o.name)).Help("h").Labels(c).Register(r);
  } catch (const std::invalid_argument&) {
    return nullptr;
  }
}

template <class T>
void doUpdate(const void* p, int label) {
  auto& f = *static_cast<Family<T>*>(const_cast<void*>(p));
  kinds::State dummy;
  Labels l;
  l["l"] = std::to_string(label);
  Kind<T>::update(Kind<T>::add(f, l, 0), dummy, 1);
}

template <class T>
bool doRemove(Registry& r, const void* p) {
  return r.Remove(*static_cast<const Family<T>*>(p));
}

template <class T>
const void* doPrepare(Registry& r, int i) {
  auto& f = Kind<T>::builder().Name(nameOf(i)).Register(r);
  kinds::State dummy;
  Kind<T>::update(Kind<T>::add(f, {}, 0), dummy, 100);
  return &f;
}

const void* prepare(Registry& r, int type, int i) {
  switch (type) {
    case 0: return doPrepare<Counter>(r, i);
    case 1: return doPrepare<Gauge>(r, i);
    case 2: return doPrepare<Histogram>(r, i);
    case 3: return doPrepare<Summary>(r, i);
    default: return doPrepare<Info>(r, i);
  }
}

bool removeTyped(Registry& r, int type, const void* p) {
  switch (type) {
    case 0: return doRemove<Counter>(r, p);
    case 1: return doRemove<Gauge>(r, p);
    case 2: return doRemove<Histogram>(r, p);
    case 3: return doRemove<Summary>(r, p);
    default: return doRemove<Info>(r, p);
  }
}

void registryCase(Source& s) {
  s.cls("registry");
  const bool merge = s.coin();
  auto reg = std::unique_ptr<Registry>(
      new Registry(merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw));
  RModel initial;
  initial.merge = merge;
  const int prepared = static_cast<int>(s.draw(4));
  for (int i = 0; i < prepared; ++i) {
    const int type = static_cast<int>(s.draw(5));
    const void* f = prepare(*reg, type, i);
    initial.m[i] = {type, false, true, f};
    PBT_NOTE(s, "prepared: " << nameOf(i) << " of type " << type);
  }
  struct Step {
    ROp op;
    bool update;  // add and increment a metric of the new family
    int label;
  };
  const size_t threads = static_cast<size_t>(s.range(2, 4));
  std::vector<std::vector<Step>> plan(threads);
  size_t writes = 0;
  for (size_t t = 0; t < threads; ++t) {
    const size_t n = static_cast<size_t>(s.range(1, 4));
    for (size_t i = 0; i < n; ++i) {
      Step st{};
      st.label = static_cast<int>(s.draw(2));
      switch (s.weighted({5, 3, 2})) {
        case 0:
          st.op.kind = RRegister;
          st.op.type = static_cast<int>(s.draw(4));
          switch (s.weighted({4, 3, 1})) {
            case 0: st.op.name = 7 + static_cast<int>(s.draw(2)); break;
            case 1: st.op.name = 3 + static_cast<int>(t); break;
            default:  // a name that somebody may have freed, as a gauge
              st.op.name = static_cast<int>(s.draw(3 + 4));
              st.op.type = 1;
              break;
          }
          if (st.op.name >= 7) st.op.constant = s.chance(1, 4);
          // in foreign families nothing is added, they could be removed
          st.update = s.coin() && (st.op.name >= 7 || st.op.name == 3 + static_cast<int>(t));
          break;
        case 1: st.op.kind = RCollect; break;
        default:
          st.op.kind = RRemove;
          st.op.name = s.coin() ? 3 + static_cast<int>(t) : static_cast<int>(t);  // thread t removes p<t>
          break;
      }
      writes += st.op.kind != RCollect;
      plan[t].push_back(st);
      PBT_NOTE(s, "thread " << t << ": " << show(st.op) << (st.update ? " and update" : ""));
    }
  }
  struct Update {
    std::string key;
    Interval at;
    uint64_t removedAt;  // removal began
  };
  std::vector<std::vector<lin::Event<ROp>>> logs(threads);
  std::vector<std::vector<Update>> updates(threads);
  for (auto& l : logs) l.reserve(16);
  for (auto& l : updates) l.reserve(16);
  auto collect = [&](ROp& o) {
    for (auto& f : reg->Collect()) {
      for (auto& m : f.metric) {
        if (f.name[0] == 'p') {  // nothing is added to others of this name
          o.present.push_back(f.name[1] - '0');
          const double v = f.type == MetricType::Counter     ? m.counter.value
                           : f.type == MetricType::Gauge     ? m.gauge.value
                           : f.type == MetricType::Histogram ? m.histogram.sample_sum
                           : f.type == MetricType::Summary   ? m.summary.sample_sum
                                                             : 100 * m.info.value;
          if (v != 100) pbt::fail("a collected metric holds " + pbt::num(v));
        } else {
          double v = f.type == MetricType::Counter     ? m.counter.value
                     : f.type == MetricType::Gauge     ? m.gauge.value
                     : f.type == MetricType::Histogram ? static_cast<double>(m.histogram.sample_count)
                                                       : static_cast<double>(m.summary.sample_count);
          std::string key = f.name + gen::typeName(f.type) + kinds::keyOf(m.label);
          o.values.push_back({key, v});
        }
      }
    }
    std::sort(o.present.begin(), o.present.end());
    std::sort(o.values.begin(), o.values.end());
  };
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      // the family under the own name
      const void* own = nullptr;
      int ownType = 0;
      bool droppedPrepared = false;
      for (auto st : plan[t]) {
        auto& o = st.op;
        const bool mine = o.name == 3 + static_cast<int>(t);
        if (o.kind == RRemove) {
          if (mine && !own) continue;
          if (!mine && (o.name >= prepared || droppedPrepared)) continue;
        }
        const uint64_t t0 = sched::now();
        sched::yield();
        switch (o.kind) {
          case RRegister: {
            o.ptr = o.type == 0   ? doRegister<Counter>(*reg, o)
                    : o.type == 1 ? doRegister<Gauge>(*reg, o)
                    : o.type == 2 ? doRegister<Histogram>(*reg, o)
                                  : doRegister<Summary>(*reg, o);
            logs[t].push_back({o, t0, sched::now(), static_cast<int>(t)});
            // a foreign thread may have been first, then it is not ours to remove,
            // but it is never removed by that thread either
            if (mine && o.ptr) {
              own = o.ptr;
              ownType = o.type;
            }
            if (st.update && o.ptr) {
              sched::yield();
              Labels l;
              l["l"] = std::to_string(st.label);
              Labels c;
              if (o.constant) c["c"] = "v";
              static const MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Histogram, MetricType::Summary};
              Update u{nameOf(o.name) + gen::typeName(types[o.type]) + kinds::keyOf(kinds::expected(c, l)),
                       {sched::now(), 0}, ~0ull};
              if (o.type == 0) doUpdate<Counter>(o.ptr, st.label);
              if (o.type == 1) doUpdate<Gauge>(o.ptr, st.label);
              if (o.type == 2) doUpdate<Histogram>(o.ptr, st.label);
              if (o.type == 3) doUpdate<Summary>(o.ptr, st.label);
              u.at.returned = sched::now();
              updates[t].push_back(u);
            }
            break;
          }
          case RRemove: {
            const std::string prefix = nameOf(o.name);
            if (mine) {
              o.ptr = own;
              for (auto& u : updates[t]) {
                if (u.key.compare(0, prefix.size(), prefix) == 0 && u.removedAt == ~0ull) u.removedAt = t0;
              }
              o.removed = removeTyped(*reg, ownType, own);
              own = nullptr;
            } else {
              o.ptr = initial.m.at(o.name).ptr;
              o.removed = removeTyped(*reg, initial.m.at(o.name).type, o.ptr);
              droppedPrepared = true;
            }
            logs[t].push_back({o, t0, sched::now(), static_cast<int>(t)});
            break;
          }
          case RCollect:
            collect(o);
            logs[t].push_back({o, t0, sched::now(), static_cast<int>(t)});
            break;
        }
        sched::yield();
      }
    });
  }
  sched::run(s, bodies);
  ROp last;
  last.kind = RCollect;
  const uint64_t t0 = sched::now();
  collect(last);
  std::vector<lin::Event<ROp>> history;
  for (auto& l : logs) history.insert(history.end(), l.begin(), l.end());
  history.push_back({last, t0, sched::now(), -1});
  lin::Checker<ROp, RModel> check(history);
  if (!check.check(initial)) {
    pbt::fail(explain("no order of the operations explains the results:", history));
  }
  for (auto& e : history) {
    if (e.op.kind != RCollect) continue;
    std::map<std::string, double> got;
    for (auto& v : e.op.values) {
      PBT_CHECK(got.emplace(v.first, v.second).second, "metric " << pbt::esc(v.first) << " collected twice");
    }
    std::map<std::string, std::pair<double, double>> bounds;
    for (auto& l : updates) {
      for (auto& u : l) {
        auto& b = bounds[u.key];
        // not to be seen any more once it may be removed
        if (u.at.returned < e.invoked && u.removedAt > e.returned) b.first += 1;
        if (u.at.invoked < e.returned) b.second += 1;
      }
    }
    for (auto& b : bounds) {
      const double v = got.count(b.first) ? got[b.first] : 0;
      PBT_CHECK(v >= b.second.first && v <= b.second.second,
                explain("collected value " + pbt::num(v) + " of " + pbt::esc(b.first) + " is not in [" +
                            pbt::num(b.second.first) + ", " + pbt::num(b.second.second) + "]",
                        history));
      got.erase(b.first);
    }
    PBT_CHECK(got.empty(), "metric " << pbt::esc(got.begin()->first) << " comes from nowhere");
  }
  PBT_NOTE(s, "switches " << sched::stats().switches);
  if (sched::stats().switches > threads && writes > 1) s.nontrivial();
}

// Objects of different threads do not share anything: each thread does with its
// own registry what it did before alone, and gets the same.

struct Script {
  std::vector<std::vector<int>> ops;
};

template <class T>
struct Own {
  std::vector<Family<T>*> families;
  std::vector<std::pair<size_t, T*>> metrics;
};

void observe(Counter& m, int v) { m.Increment(v); }
void observe(Gauge& m, int v) { m.Decrement(v); }
void observe(Histogram& m, int v) {
  m.Observe(v);
  if (v == 3) m.ObserveMultiple({1, 2, 3}, v);
  if (v == 5) m.Reset();
}
void observe(Summary& m, int v) {
  for (int i = 0; i < (v == 7 ? 600 : 1); ++i) m.Observe(v + i);
}
void observe(Info&, int) {}
Counter& create(Family<Counter>& f, const Labels& l) { return f.Add(l); }
Gauge& create(Family<Gauge>& f, const Labels& l) { return f.Add(l, 2.0); }
Histogram& create(Family<Histogram>& f, const Labels& l) { return f.Add(l, Histogram::BucketBoundaries{1, 4}); }
Summary& create(Family<Summary>& f, const Labels& l) {
  return f.Add(l, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}}, std::chrono::milliseconds{100000000}, 3);
}
Info& create(Family<Info>& f, const Labels& l) { return f.Add(l); }

template <class T>
void doOwn(Registry& r, Own<T>& own, const std::vector<int>& op, std::string& out) {
  static const char* names[] = {"a", "b", "a:b", "_c", "__d", "1e", "x_total", ""};
  static const char* labels[] = {"a", "b", "le", "quantile", "__x", "a-b"};
  switch (op[1]) {
    case 0: {
      Labels c;
      if (op[3] > 2) c[labels[op[3] - 3]] = "v";
      try {
        auto& f = Kind<T>::builder().Name(names[op[2]]).Help("help").Labels(c).Register(r);
        out += "family " + f.GetName();
        if (std::find(own.families.begin(), own.families.end(), &f) == own.families.end()) own.families.push_back(&f);
      } catch (const std::invalid_argument& e) {
        out += std::string("rejected: ") + e.what();
      }
      break;
    }
    case 1: {
      if (own.families.empty()) return;
      const size_t i = static_cast<size_t>(op[2]) % own.families.size();
      Labels l;
      if (op[3] > 1) l[labels[op[3] - 2]] = std::to_string(op[4]);
      try {
        T& m = create(*own.families[i], l);
        out += "added";
        if (!own.families[i]->Has(l)) out += " but not there";
        for (auto& o : own.metrics) {
          if (o.second == &m) return;
        }
        own.metrics.push_back({i, &m});
      } catch (const std::invalid_argument& e) {
        out += std::string("rejected: ") + e.what();
      }
      break;
    }
    case 2:
      if (own.metrics.empty()) return;
      observe(*own.metrics[static_cast<size_t>(op[2]) % own.metrics.size()].second, op[3]);
      break;
    case 3: {
      if (own.metrics.empty()) return;
      const size_t i = static_cast<size_t>(op[2]) % own.metrics.size();
      own.families[own.metrics[i].first]->Remove(own.metrics[i].second);
      own.metrics.erase(own.metrics.begin() + static_cast<long>(i));
      break;
    }
    case 4: {
      if (own.families.empty() || op[3] > 1) return;
      out += r.Remove(*own.families.back()) ? "removed" : "not removed";
      const size_t gone = own.families.size() - 1;
      own.metrics.erase(std::remove_if(own.metrics.begin(), own.metrics.end(),
                                       [gone](const std::pair<size_t, T*>& m) { return m.first == gone; }),
                        own.metrics.end());
      own.families.pop_back();
      break;
    }
    default: out += TextSerializer{}.Serialize(r.Collect()); break;
  }
}

std::string runOwn(const Script& script, bool merge, bool yields) {
  std::string out;
  Registry r(merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw);
  Own<Counter> counters;
  Own<Gauge> gauges;
  Own<Histogram> histograms;
  Own<Summary> summaries;
  Own<Info> infos;
  for (auto& op : script.ops) {
    if (yields) sched::yield();
    switch (op[0]) {
      case 0: doOwn(r, counters, op, out); break;
      case 1: doOwn(r, gauges, op, out); break;
      case 2: doOwn(r, histograms, op, out); break;
      case 3: doOwn(r, summaries, op, out); break;
      default: doOwn(r, infos, op, out); break;
    }
    out += "\n";
  }
  out += TextSerializer{}.Serialize(r.Collect());
  return out;
}

void ownCase(Source& s) {
  s.cls("own objects");
  const size_t threads = static_cast<size_t>(s.range(2, 4));
  const bool merge = s.coin();
  const bool after = s.coin();  // nothing of the library is used before the threads start
  std::vector<Script> scripts(threads);
  std::vector<std::string> alone(threads), together(threads);
  for (size_t t = 0; t < threads; ++t) {
    if (t && s.chance(1, 3)) {
      scripts[t] = scripts[0];
    } else {
      const size_t n = 2 + s.length(10);
      for (size_t i = 0; i < n; ++i) {
        scripts[t].ops.push_back({static_cast<int>(s.draw(5)), static_cast<int>(s.weighted({5, 5, 6, 1, 1, 1})),
                                  static_cast<int>(s.draw(8)), static_cast<int>(s.draw(8)), static_cast<int>(s.draw(3))});
      }
    }
    if (after) continue;
    alone[t] = runOwn(scripts[t], merge, false);
    PBT_NOTE(s, "thread " << t << " alone:\n" << alone[t]);
  }
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] { together[t] = runOwn(scripts[t], merge, true); });
  }
  sched::run(s, bodies);
  for (size_t t = 0; t < threads; ++t) {
    if (after) alone[t] = runOwn(scripts[t], merge, false);
    PBT_CHECK(together[t] == alone[t], "thread " << t << " with objects of its own gets\n" << pbt::esc(together[t]) << " instead of\n"
                                                 << pbt::esc(alone[t]));
  }
  if (sched::stats().switches > threads) s.nontrivial();
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  switch (s.weighted({5, 2, 2, 1, 1, 1})) {
    case 0: registryCase(s); break;
    case 4: ownCase(s); break;
    case 5: familyCase<Summary>(s); break;
    case 1: familyCase<Counter>(s); break;
    case 2: familyCase<Gauge>(s); break;
    default: familyCase<Histogram>(s); break;
  }
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
