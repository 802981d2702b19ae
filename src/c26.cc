// C26: operations that fail because memory runs out, or because a callback of
// the user throws, leave everything usable.
#include <curl/curl.h>
#include <signal.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <future>
#include <memory>
#include <new>
#include <stdexcept>

#include "kinds.h"
#include "pullutil.h"
#include "httpd.h"
#include "pushutil.h"

namespace fault {

// the n-th allocation of this thread from now fails; 0: none
thread_local uint64_t countdown = 0;
thread_local bool library = false;
std::atomic<int64_t> live{0};  // allocations of the library that are not freed

constexpr size_t kHeader = 16;
constexpr uint64_t kLibrary = 0x4c49425241525921ull, kOther = 0x4f54484552212121ull;

void* allocate(size_t n) {
  if (countdown && --countdown == 0) return nullptr;
  char* p = static_cast<char*>(malloc(n + kHeader));
  if (!p) return nullptr;
  *reinterpret_cast<uint64_t*>(p) = library ? kLibrary : kOther;
  if (library) ++live;
  return p + kHeader;
}
void release(void* p) {
  if (!p) return;
  char* q = static_cast<char*>(p) - kHeader;
  if (*reinterpret_cast<uint64_t*>(q) == kLibrary) --live;
  free(q);
}

}  // namespace fault

void* operator new(size_t n) {
  void* p = fault::allocate(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault::allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault::allocate(n); }
void operator delete(void* p) noexcept { fault::release(p); }
void operator delete[](void* p) noexcept { fault::release(p); }
void operator delete(void* p, size_t) noexcept { fault::release(p); }
void operator delete[](void* p, size_t) noexcept { fault::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::release(p); }

using namespace prometheus;
using pbt::Source;

namespace {

enum class Result { Done, OutOfMemory, Invalid };

struct Region {
  explicit Region(uint64_t n) {
    fault::library = true;
    fault::countdown = n;
  }
  ~Region() {
    fault::countdown = 0;
    fault::library = false;
  }
};

// runs an operation of the library, its n-th allocation fails
template <class F>
Result attempt(uint64_t n, F f) {
  try {
    Region r(n);
    f();
    return Result::Done;
  } catch (const std::bad_alloc&) {
    return Result::OutOfMemory;
  } catch (const std::invalid_argument&) {
    return Result::Invalid;
  }
}

const char* show(Result r) {
  return r == Result::Done ? "done" : r == Result::OutOfMemory ? "out of memory" : "invalid argument";
}

uint64_t where(Source& s, bool many = false) {
  if (many && s.coin()) return 1 + s.draw(160);
  switch (s.draw(4)) {
    case 0: return 0;
    case 1: return 1 + s.draw(4);
    case 2: return 1 + s.draw(12);
    default: return 1 + s.draw(40);
  }
}

// ---- core ------------------------------------------------------------------

struct Fam {
  std::string name, help;
  Labels constant;
  MetricType type;
  virtual ~Fam() = default;
  virtual void add(Source&, uint64_t) = 0;
  virtual void update(Source&, uint64_t) = 0;
  virtual void remove(Source&, uint64_t) = 0;
  virtual void check(const MetricFamily&) = 0;
  virtual size_t size() const = 0;
  virtual bool removeFrom(Registry&, uint64_t) = 0;
  virtual bool same(const void*) const = 0;
};

template <class T>
struct FamOf : Fam {
  Family<T>* family = nullptr;
  struct Entry {
    Labels labels;
    T* metric;
    std::vector<kinds::State> possible;
    std::vector<double> values;  // of a summary, sorted when needed
    int arg;
    size_t failures = 0;
  };
  std::vector<Entry> entries;

  size_t size() const override { return entries.size(); }
  bool same(const void* f) const override { return f == family; }
  Entry* find(const Labels& l) {
    for (auto& e : entries) {
      if (e.labels == l) return &e;
    }
    return nullptr;
  }
  void add(Source& s, uint64_t n) override {
    const Labels l = kinds::confusable(s, false);
    const int arg = static_cast<int>(s.draw(3));
    bool duplicate = false;
    for (auto& c : constant) duplicate = duplicate || l.count(c.first);
    T* got = nullptr;
    const Result r = attempt(n, [&] { got = &kinds::Kind<T>::add(*family, l, arg); });
    PBT_NOTE(s, "  add " << pbt::esc(name) << " #" << entries.size() << " failing at " << n << ": " << show(r));
    Entry* e = find(l);
    if (r == Result::Done) {
      PBT_CHECK(!duplicate || e, "a duplicate label name was accepted");
      if (e) {
        PBT_CHECK(e->metric == got, "another metric for the same labels");
      } else {
        Entry x;
        x.labels = l;
        x.metric = got;
        x.arg = arg;
        x.possible = {kinds::Kind<T>::initial(arg)};
        x.values.reserve(16);
        entries.push_back(x);
      }
    } else {
      PBT_CHECK(r == Result::OutOfMemory || duplicate, "rejected without a reason");
      PBT_CHECK(n || r != Result::OutOfMemory, "out of memory");
    }
    PBT_CHECK(family->Has(l) == (find(l) != nullptr), "presence after adding (" << show(r) << ")");
  }
  void update(Source& s, uint64_t n) override {
    if (entries.empty()) return;
    Entry& e = entries[s.draw(entries.size())];
    const size_t k = std::is_same<T, Summary>::value ? s.length(1600) : 1 + s.draw(3);
    const uint64_t base = s.draw(1000);
    // the allocation fails somewhere in the updates
    bool failed = false;
    for (size_t i = 0; i < k; ++i) {
      const int v = static_cast<int>((base + i * 7919) % 2003);
      auto after = e.possible;
      kinds::State ignored;
      uint64_t rest = 0;
      Result r;
      try {
        Region region(n);
        kinds::Kind<T>::update(*e.metric, ignored, v);
        rest = fault::countdown;
        r = Result::Done;
      } catch (const std::bad_alloc&) {
        r = Result::OutOfMemory;
      }
      for (auto& st : after) {
        st.count += ignored.count;
        st.value += ignored.value;
        if (r != Result::Done) {
          st.count += 1;
          st.value += v;
        }
      }
      e.values.push_back(v);
      if (r == Result::Done) {
        e.possible = after;
      } else {
        PBT_CHECK(n, "out of memory");
        e.possible.insert(e.possible.end(), after.begin(), after.end());
        ++e.failures;
        failed = true;
      }
      n = rest;
    }
    PBT_NOTE(s, "  " << k << " updates of " << pbt::esc(name) << (failed ? ", out of memory" : ""));
    if (failed) s.cls("failed observation");
  }
  void remove(Source& s, uint64_t n) override {
    if (entries.empty()) return;
    const size_t i = s.draw(entries.size());
    Entry e = entries[i];
    const Result r = attempt(n, [&] { family->Remove(e.metric); });
    PBT_NOTE(s, "  remove metric " << i << " of " << pbt::esc(name) << ": " << show(r));
    if (r == Result::Done) entries.erase(entries.begin() + static_cast<long>(i));
    PBT_CHECK(family->Has(e.labels) == (r != Result::Done), "presence after removing (" << show(r) << ")");
  }
  bool removeFrom(Registry& registry, uint64_t n) override {
    bool removed = false;
    const Result r = attempt(n, [&] { removed = registry.Remove(*family); });
    PBT_CHECK(r == Result::OutOfMemory || removed, "a family was not removed");
    return r == Result::Done;
  }
  void check(const MetricFamily& f) override {
    PBT_CHECK(f.help == help && f.type == type, "help or type of " << pbt::esc(name));
    PBT_CHECK(f.metric.size() == entries.size(), pbt::esc(name) << " has " << f.metric.size() << " metrics instead of " << entries.size());
    std::vector<bool> used(f.metric.size());
    for (auto& e : entries) {
      const auto want = kinds::expected(constant, e.labels);
      size_t at = 0;
      while (at < f.metric.size() && (used[at] || kinds::keyOf(f.metric[at].label) != kinds::keyOf(want))) ++at;
      PBT_CHECK(at < f.metric.size(), "a metric of " << pbt::esc(name) << " is missing");
      used[at] = true;
      const ClientMetric& m = f.metric[at];
      std::vector<kinds::State> left;
      for (auto& st : e.possible) {
        if (kinds::Kind<T>::matches(m, st)) left.push_back(st);
      }
      PBT_CHECK(!left.empty(), pbt::esc(name) << " holds sum " << kinds::Kind<T>::read(m).value << " count "
                                              << kinds::Kind<T>::read(m).count << " instead of sum " << e.possible[0].value
                                              << " count " << e.possible[0].count << ", " << e.failures << " failures");
      e.possible = left;
      if (std::is_same<T, Summary>::value) quantiles(e, m);
    }
  }
  void quantiles(Entry& e, const ClientMetric& m) {
    const auto& q = m.summary.quantile.at(0);
    if (e.values.size() == e.failures) return;  // nothing certain
    PBT_CHECK(!std::isnan(q.value), "no quantile of " << e.values.size() << " observations");
    std::vector<double> v = e.values;
    std::sort(v.begin(), v.end());
    const auto lo = std::lower_bound(v.begin(), v.end(), q.value), hi = std::upper_bound(v.begin(), v.end(), q.value);
    PBT_CHECK(lo != hi, "quantile " << q.value << " was never observed");
    const double n = static_cast<double>(v.size()), want = q.quantile * n;
    const double slack = 0.05 * n + 15 + static_cast<double>(2 * e.failures);
    const double a = static_cast<double>(lo - v.begin()), b = static_cast<double>(hi - v.begin());
    PBT_CHECK(want >= a - slack && want <= b + slack,
              "quantile " << q.quantile << " is the value of rank " << a << " to " << b << " of " << n << " after " << e.failures << " failures");
  }
};

template <class T>
Result registerFamily(Source& s, Registry& registry, bool merge, uint64_t n, std::vector<std::unique_ptr<Fam>>& fams) {
  static const char* names[] = {"a", "b", "name_that_is_longer_than_a_small_string", "0"};
  std::unique_ptr<FamOf<T>> f(new FamOf<T>);
  f->name = names[s.weighted({5, 5, 5, 1})];
  f->help = s.coin() ? "help" : "a help text that needs memory of its own";
  f->constant = s.chance(1, 3) ? Labels{{"constant", s.coin() ? "x" : "a value that needs memory of its own"}} : Labels{};
  f->type = kinds::Kind<T>::type;
  Family<T>* got = nullptr;
  const Result r = attempt(n, [&] {
    got = &kinds::Kind<T>::builder().Name(f->name).Help(f->help).Labels(f->constant).Register(registry);
  });
  PBT_NOTE(s, "register " << kinds::Kind<T>::name << " " << f->name << " failing at " << n << ": " << show(r));
  Fam* same = nullptr;
  for (auto& x : fams) {
    if (x->name == f->name) same = x.get();
  }
  const bool admissible =
      f->name != "0" && (!same || (merge && same->type == f->type && same->constant == f->constant));
  if (r == Result::Done) {
    PBT_CHECK(admissible, "a family that must be rejected was registered");
    if (same) {
      PBT_CHECK(same->same(got), "another family for the same name");
    } else {
      f->family = got;
      fams.push_back(std::move(f));
    }
  } else if (r == Result::Invalid) {
    PBT_CHECK(!admissible, "registration of " << f->name << " was rejected");
  } else {
    PBT_CHECK(n, "out of memory");
  }
  return r;
}

void core(Source& s) {
  const bool merge = s.coin();
  size_t failures = 0;
  {
    Registry registry(merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw);
    std::vector<std::unique_ptr<Fam>> fams;
    auto check = [&] {
      const auto all = registry.Collect();
      size_t want = 0;
      for (auto& f : fams) want += f->size() > 0;
      PBT_CHECK(all.size() == want, all.size() << " families instead of " << want);
      for (auto& f : fams) {
        if (!f->size()) continue;
        const MetricFamily* got = nullptr;
        for (auto& x : all) {
          if (x.name == f->name) got = &x;
        }
        PBT_CHECK(got, f->name << " is missing");
        f->check(*got);
      }
    };
    const size_t ops = 3 + s.length(30);
    for (size_t i = 0; i < ops; ++i) {
      const uint64_t n = where(s);
      Result r = Result::Done;
      switch (s.weighted({3, 5, 5, 1, 1, 3})) {
        case 0:
          switch (s.draw(5)) {
            case 0: r = registerFamily<Counter>(s, registry, merge, n, fams); break;
            case 1: r = registerFamily<Gauge>(s, registry, merge, n, fams); break;
            case 2: r = registerFamily<Info>(s, registry, merge, n, fams); break;
            case 3: r = registerFamily<Histogram>(s, registry, merge, n, fams); break;
            default: r = registerFamily<Summary>(s, registry, merge, n, fams); break;
          }
          break;
        case 1:
          if (!fams.empty()) fams[s.draw(fams.size())]->add(s, n);
          break;
        case 2:
          if (!fams.empty()) fams[s.draw(fams.size())]->update(s, n);
          break;
        case 3:
          if (!fams.empty()) fams[s.draw(fams.size())]->remove(s, n);
          break;
        case 4: {
          if (fams.empty()) break;
          const size_t k = s.draw(fams.size());
          if (fams[k]->removeFrom(registry, n)) fams.erase(fams.begin() + static_cast<long>(k));
          PBT_NOTE(s, "remove family " << k);
          break;
        }
        default: {
          r = attempt(n, [&] { registry.Collect(); });
          PBT_NOTE(s, "collect failing at " << n << ": " << show(r));
          PBT_CHECK(r == Result::Done || n, "collect throws");
          break;
        }
      }
      if (r == Result::OutOfMemory) ++failures;
      if (s.coin()) check();
    }
    check();
  }
  s.cls("core");
  if (failures) s.nontrivial();
}

// ---- registration at an exposer ---------------------------------------------

void pull(Source& s) {
  using namespace pullutil;
  size_t failures = 0;
  {
    Exposer exposer("127.0.0.1:0", 1);
    const int port = exposer.GetListeningPorts().at(0);
    struct Path {
      std::vector<std::shared_ptr<Fixed>> things;
      bool known = false, maybe = false;
      int callback = 0;  // number of the authentication callback
    };
    std::vector<Path> paths(9);
    int callbacks = 0, things = 0;
    auto scrape = [&](size_t k) {
      Path& p = paths[k];
      const std::string what = "scrape of path " + std::to_string(k);
      std::string header;
      if (p.callback) {
        const auto refused = httpc::get(port, "/p" + std::to_string(k));
        PBT_CHECK(refused.status == 401, what << ": status " << refused.status << " without credentials");
        static const char* codes[] = {"dTE6eA==", "dTI6eA==", "dTM6eA==", "dTQ6eA==", "dTU6eA=="};  // u1:x ...
        header = std::string("Authorization: Basic ") + codes[p.callback - 1] + "\r\n";
      }
      const auto r = httpc::get(port, "/p" + std::to_string(k), header);
      if (!p.known && (r.status == 404 || !p.maybe)) {
        PBT_CHECK(r.complete && r.status == 404, what << ": status " << r.status << " " << r.error);
        return;
      }
      std::vector<std::string> blocks;
      for (auto& t : p.things) blocks.push_back(textOf(*t));
      consume(metricsText(r, false, what), blocks, what);
    };
    const size_t ops = 2 + s.length(20);
    for (size_t i = 0; i < ops; ++i) {
      const uint64_t n = where(s, true);
      const size_t k = s.draw(paths.size());
      Path& p = paths[k];
      const std::string uri = "/p" + std::to_string(k);
      Result r = Result::Done;
      switch (s.weighted({5, 1, 1, 3})) {
        case 0: {
          auto t = std::make_shared<Fixed>();
          t->families = {numberFamily("m" + std::to_string(things), 1)};
          ++things;
          r = attempt(n, [&] { exposer.RegisterCollectable(t, uri); });
          PBT_NOTE(s, "register at " << uri << " failing at " << n << ": " << show(r));
          if (r == Result::Done) {
            p.known = true;
            p.things.push_back(t);
          }
          break;
        }
        case 1: {
          if (p.things.empty()) break;
          const size_t x = s.draw(p.things.size());
          r = attempt(n, [&] { exposer.RemoveCollectable(p.things[x], uri); });
          PBT_NOTE(s, "remove " << x << " from " << uri << " failing at " << n << ": " << show(r));
          if (r == Result::Done) p.things.erase(p.things.begin() + static_cast<long>(x));
          break;
        }
        case 2: {
          if (callbacks == 5 || !p.known) break;
          const std::string user = "u" + std::to_string(++callbacks);
          r = attempt(n, [&] {
            exposer.RegisterAuth([user](const std::string& u, const std::string&) { return u == user; },
                                 "a realm that needs memory of its own", uri);
          });
          PBT_NOTE(s, "authentication at " << uri << " failing at " << n << ": " << show(r));
          if (r == Result::Done) p.callback = callbacks;
          break;
        }
        default:
          PBT_NOTE(s, "scrape " << uri);
          scrape(k);
          break;
      }
      if (r == Result::OutOfMemory) {
        p.maybe = true;
        PBT_CHECK(n, "out of memory");
        ++failures;
        if (s.coin()) scrape(k);
      }
    }
    for (size_t k = 0; k < paths.size(); ++k) scrape(k);
  }
  s.cls("exposer");
  if (failures) s.nontrivial();
}

// ---- callbacks that throw in a push -------------------------------------------

struct Thrown : std::runtime_error {
  Thrown() : std::runtime_error("thrown by a callback of the user") {}
};

struct Thrower : Collectable {
  std::string name;
  std::atomic<int> after{-1};  // collects until it throws once
  std::vector<MetricFamily> Collect() const override {
    auto& a = const_cast<std::atomic<int>&>(after);
    if (a >= 0 && a-- == 0) throw Thrown();
    return {pullutil::numberFamily(name, 1)};
  }
};

httpd::Server* g_server;

void push(Source& s) {
  g_server->script({});
  size_t failures = 0;
  auto setupAfter = std::make_shared<std::atomic<int>>(-1);  // set-ups until one throws
  std::unique_ptr<Gateway> g;
  auto setup = [setupAfter](CURL*) {
    if (*setupAfter >= 0 && (*setupAfter)-- == 0) throw Thrown();
  };
  *setupAfter = static_cast<int>(s.draw(3)) ? -1 : 0;
  for (int i = 0; i < 2 && !g; ++i) {
    try {
      g.reset(new Gateway("127.0.0.1", std::to_string(g_server->port()), setup, "j", {{"i", "1"}}));
    } catch (const Thrown&) {
      ++failures;
    }
  }
  PBT_CHECK(g, "no gateway");
  std::vector<std::shared_ptr<Thrower>> things;
  const size_t ops = 2 + s.length(12);
  for (size_t i = 0; i < ops; ++i) {
    if (s.chance(1, 4) || things.empty()) {
      const uint64_t n = where(s);
      auto t = std::make_shared<Thrower>();
      t->name = "t" + std::to_string(things.size());
      const Result r = attempt(n, [&] { g->RegisterCollectable(t); });
      PBT_NOTE(s, "register failing at " << n << ": " << show(r));
      if (r == Result::Done) {
        things.push_back(t);
      } else {
        ++failures;
      }
      continue;
    }
    const bool async = s.coin();
    const int kind = static_cast<int>(s.weighted({3, 3, 1, 1}));
    int collectFails = -1, setupFails = -1;
    if (s.coin()) {
      if (s.coin()) {
        collectFails = static_cast<int>(s.draw(things.size()));
        things[static_cast<size_t>(collectFails)]->after = 0;
      } else {
        setupFails = static_cast<int>(s.draw(things.size() + 1));
        *setupAfter = setupFails;
      }
    }
    PBT_NOTE(s, (async ? "asynchronous " : "") << (kind == 0 ? "push" : kind == 1 ? "push-add" : "delete") << " of " << things.size()
                                               << ", collectable " << collectFails << " throws, set-up " << setupFails << " throws");
    int status = 0;
    bool thrown = false;
    try {
      if (async) {
        std::future<int> f;
        switch (kind) {
          case 0: f = g->AsyncPush(); break;
          case 1: f = g->AsyncPushAdd(); break;
          case 2: f = g->AsyncDelete(); break;
          default: f = g->AsyncDeleteForInstance(); break;
        }
        PBT_CHECK(f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "a future never becomes ready");
        status = f.get();
      } else {
        switch (kind) {
          case 0: status = g->Push(); break;
          case 1: status = g->PushAdd(); break;
          case 2: status = g->Delete(); break;
          default: status = g->DeleteForInstance(); break;
        }
      }
    } catch (const Thrown&) {
      thrown = true;
      ++failures;
    }
    const size_t all = kind < 2 ? things.size() : 1;
    const bool mustThrow = (kind < 2 && collectFails >= 0) || (setupFails >= 0 && static_cast<size_t>(setupFails) < all);
    PBT_CHECK(thrown == mustThrow, (thrown ? "throws" : "does not throw, status " + std::to_string(status)));
    if (!thrown) PBT_CHECK(status == 200, "status " << status);
    for (auto& t : things) t->after = -1;
    *setupAfter = -1;
    const auto requests = g_server->take();
    if (!thrown) PBT_CHECK(requests.size() == all, requests.size() << " requests instead of " << all);
    PBT_CHECK(requests.size() <= all, requests.size() << " requests instead of at most " << all);
    std::vector<bool> seen(things.size());
    for (auto& r : requests) {
      PBT_CHECK(r.method == (kind == 0 ? "POST" : kind == 1 ? "PUT" : "DELETE"), "method " << r.method);
      PBT_CHECK(r.target == (kind == 2 ? "/metrics/job/j" : "/metrics/job/j/i/1"), "target " << r.target);
      if (kind >= 2) {
        PBT_CHECK(r.body.empty(), "body of a delete");
        continue;
      }
      size_t k = 0;
      while (k < things.size() && (seen[k] || r.body != pushutil::bodyOf(*things[k]))) ++k;
      PBT_CHECK(k < things.size(), "unexpected body " << pbt::esc(r.body));
      seen[k] = true;
    }
  }
  g.reset();
  s.cls("gateway");
  if (failures) s.nontrivial();
}

}  // namespace

namespace pbt {

void pbt_init() {
  signal(SIGPIPE, SIG_IGN);
  curl_global_init(CURL_GLOBAL_ALL);
  g_server = new httpd::Server;
}

static void run(Source& s) {
  switch (s.weighted({8, 2, 1})) {
    case 0: core(s); break;
    case 1: pull(s); break;
    default: push(s); break;
  }
}

void pbt_case(Source& s) {
  int64_t before = fault::live;
  run(s);
  if (fault::live == before) return;
  // what is kept for good after its first use is no leak, that would be left again
  s.cls("kept memory");
  Source again;
  again.startReplay(s.soFar());
  before = fault::live;
  run(again);
  PBT_CHECK(fault::live == before, fault::live - before << " allocations are never freed");
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
