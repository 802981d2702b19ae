// C24: histories are repeated; live heap bytes, open descriptors and threads
// must not grow with the number of repetitions.
#include <CivetServer.h>
#include <curl/curl.h>
#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include <functional>
#include <future>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>

#include "gen.h"
#include "httpc.h"
#include "httpd.h"
#include "pbt.h"
#include "prometheus/counter.h"
#include "prometheus/exposer.h"
#include "prometheus/family.h"
#include "prometheus/gateway.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;

namespace {

struct Fixed : Collectable {
  std::vector<MetricFamily> families;
  std::vector<MetricFamily> Collect() const override { return families; }
};

struct Usage {
  int64_t bytes, blocks, fds, threads;
};

std::atomic<int64_t> g_blocks{0};
void allocated(const volatile void*, size_t) { ++g_blocks; }
void freed(const volatile void* p) {
  if (p) --g_blocks;
}

int64_t entries(const char* dir) {
  int64_t n = 0;
  DIR* d = opendir(dir);
  while (d && readdir(d)) ++n;
  if (d) closedir(d);
  return n - 3;
}

Usage usage() {
  Usage u;
  u.fds = entries("/proc/self/fd");
  u.threads = entries("/proc/self/task") + 1;
  u.bytes = static_cast<int64_t>(__sanitizer_get_current_allocated_bytes());
  u.blocks = g_blocks;
  return u;
}

// what operations work on; null if it does not exist
struct World {
  std::shared_ptr<Registry> registry;
  std::vector<std::shared_ptr<Fixed>> fixed;
  std::unique_ptr<Exposer> exposer;
  int port = 0;
  std::unique_ptr<Gateway> gateway;
  std::vector<std::future<int>> pending;
  void clear() {
    for (auto& f : pending) f.get();
    pending.clear();
    gateway.reset();
    exposer.reset();
    fixed.clear();
    registry.reset();
  }
};

using Op = std::function<void(World&)>;

template <class T, class B, class A, class U>
Op familyOp(Source& s, B builder, A add, U update, bool keepsState) {
  const std::string name = "f" + std::to_string(s.draw(3));
  const std::string help = gen::text(s, 20);
  const Labels constant = gen::labels(s, 1);
  std::vector<Labels> ls;
  const size_t n = s.draw(6);
  for (size_t i = 0; i < n; ++i) ls.push_back(gen::labels(s, 3));
  const bool remove = s.coin();
  // without it a summary that lives on gets more observations with every round
  const bool removeFamily = s.coin() || (keepsState && !remove);
  const bool invalid = s.chance(1, 4);
  return [=](World& w) {
    if (!w.registry) return;
    try {
      auto& f = builder().Name(invalid ? "0" + name : name).Help(help).Labels(constant).Register(*w.registry);
      std::vector<T*> ms;
      for (auto& l : ls) {
        try {
          T* m = &add(f, l);
          bool known = false;
          for (auto* o : ms) known = known || o == m;
          if (!known) ms.push_back(m);
        } catch (const std::invalid_argument&) {
        }
      }
      for (auto* m : ms) update(*m);
      if (remove) {
        for (auto* m : ms) f.Remove(m);
      }
      if (removeFamily) w.registry->Remove(f);
    } catch (const std::invalid_argument&) {
    }
  };
}

Op coreOp(Source& s, bool keepsState) {
  switch (s.draw(7)) {
    case 0:
      return familyOp<Counter>(
          s, [] { return BuildCounter(); }, [](Family<Counter>& f, const Labels& l) -> Counter& { return f.Add(l); },
          [](Counter& c) { c.Increment(2); }, keepsState);
    case 1:
      return familyOp<Gauge>(
          s, [] { return BuildGauge(); }, [](Family<Gauge>& f, const Labels& l) -> Gauge& { return f.Add(l, 3.0); },
          [](Gauge& c) { c.SetToCurrentTime(); }, keepsState);
    case 2:
      return familyOp<Info>(
          s, [] { return BuildInfo(); }, [](Family<Info>& f, const Labels& l) -> Info& { return f.Add(l); }, [](Info&) {},
          keepsState);
    case 3: {
      const bool bad = s.chance(1, 4);
      return familyOp<Histogram>(
          s, [] { return BuildHistogram(); },
          [bad](Family<Histogram>& f, const Labels& l) -> Histogram& {
            return f.Add(l, bad ? Histogram::BucketBoundaries{2, 1} : Histogram::BucketBoundaries{1, 2, 5});
          },
          [](Histogram& c) {
            c.Observe(1.5);
            c.ObserveMultiple({1, 2, 3, 4}, 9);
            try {
              c.ObserveMultiple({1}, 9);
            } catch (const std::length_error&) {
            }
            c.Reset();
          },
          keepsState);
    }
    case 4: {
      const size_t n = s.draw(1500);
      return familyOp<Summary>(
          s, [] { return BuildSummary(); },
          [](Family<Summary>& f, const Labels& l) -> Summary& {
            return f.Add(l, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}});
          },
          [n](Summary& c) {
            for (size_t i = 0; i < n; ++i) c.Observe(static_cast<double>(i * 7919 % 1000));
            c.Collect();
          },
          keepsState);
    }
    default: {
      const bool stream = s.coin();
      return [stream](World& w) {
        if (!w.registry) return;
        TextSerializer t;
        if (stream) {
          std::ostringstream os;
          t.Serialize(os, w.registry->Collect());
        } else {
          t.Serialize(w.registry->Collect());
        }
      };
    }
  }
}

const char* kPaths[] = {"/metrics", "/m", "/other"};

Op pullOp(Source& s, bool keepsState, const char** what) {
  const std::string path = kPaths[s.draw(3)];
  switch (s.weighted({8, 4, 2, 8, 1})) {
    case 4: {
      const bool occupied = s.coin();
      *what = "exposer that cannot start";
      return [=](World& w) {
        if (!w.exposer) return;
        const std::string address = occupied ? "127.0.0.1:" + std::to_string(w.port) : "nonsense";
        try {
          Exposer e(address, 1);
        } catch (const CivetException&) {
        }
      };
    }
    case 0: {
      const bool registry = s.coin();
      const bool remove = s.coin();
      const bool drop = s.coin();
      *what = "register a collectable";
      return [=](World& w) {
        if (!w.exposer) return;
        if (registry && w.registry) {
          w.exposer->RegisterCollectable(w.registry, path);
          w.exposer->RemoveCollectable(w.registry, path);
          return;
        }
        auto f = std::make_shared<Fixed>();
        w.exposer->RegisterCollectable(f, path);
        if (remove || (keepsState && !drop)) {
          w.exposer->RemoveCollectable(f, path);
        } else if (!drop) {
          w.fixed.push_back(f);
        }
      };
    }
    case 1: {
      *what = "drop collectables";
      return [](World& w) { w.fixed.clear(); };
    }
    case 2: {
      *what = "register authentication";
      if (keepsState) return [](World&) {};  // replaced callbacks live as long as the exposer
      return [=](World& w) {
        if (w.exposer) {
          w.exposer->RegisterAuth([](const std::string& u, const std::string& p) { return u == p; }, "realm", path);
        }
      };
    }
    default: {
      static const char* headers[] = {"",
                                      "Accept-Encoding: gzip\r\n",
                                      "Authorization: Basic YTph\r\n",
                                      "Authorization: Basic !!!!\r\n",
                                      "Authorization: Basic YTpi\r\n",
                                      "Authorization: Digest x\r\n"};
      const std::string h = headers[s.draw(6)];
      const std::string target = s.chance(1, 5) ? "/nothing" : path;
      *what = "scrape";
      return [=](World& w) {
        if (w.exposer) httpc::get(w.port, target, h);
      };
    }
  }
}

Op pushOp(Source& s, bool keepsState, const char** what) {
  switch (s.weighted({6, 2, 10, 6, 2, 1})) {
    case 5: {
      *what = "gateway whose set-up fails";
      return [](World&) {
        try {
          Gateway g("127.0.0.1", "1", [](CURL*) { throw std::runtime_error("set-up"); }, "x0");
        } catch (const std::runtime_error&) {
        }
      };
    }
    case 0: {
      const bool registry = s.coin();
      const Labels l = gen::labels(s, 2);
      const bool labels = s.coin();
      const bool drop = keepsState || s.coin();
      *what = "register at the gateway";
      return [=](World& w) {
        if (!w.gateway) return;
        auto f = std::make_shared<Fixed>();
        std::weak_ptr<Collectable> c = f;
        if (registry && w.registry && !keepsState) c = w.registry;
        w.gateway->RegisterCollectable(c, labels ? &l : nullptr);
        if (!drop) w.fixed.push_back(f);
      };
    }
    case 1: {
      *what = "header";
      if (keepsState) return [](World&) {};  // is meant to grow
      const std::string h = "X-A: " + std::string(s.draw(30), 'b');
      return [h](World& w) {
        if (w.gateway) w.gateway->AddHttpHeader(h);
      };
    }
    case 2: {
      const int kind = static_cast<int>(s.draw(4));
      *what = "push or delete";
      return [kind](World& w) {
        if (!w.gateway) return;
        switch (kind) {
          case 0: w.gateway->Push(); break;
          case 1: w.gateway->PushAdd(); break;
          case 2: w.gateway->Delete(); break;
          default: w.gateway->DeleteForInstance(); break;
        }
      };
    }
    case 3: {
      const int kind = static_cast<int>(s.draw(4));
      *what = "asynchronous push or delete";
      return [kind](World& w) {
        if (!w.gateway) return;
        std::future<int> f;
        switch (kind) {
          case 0: f = w.gateway->AsyncPush(); break;
          case 1: f = w.gateway->AsyncPushAdd(); break;
          case 2: f = w.gateway->AsyncDelete(); break;
          default: f = w.gateway->AsyncDeleteForInstance(); break;
        }
        w.pending.push_back(std::move(f));
      };
    }
    default:
      *what = "wait";
      return [](World& w) {
        for (auto& f : w.pending) f.get();
        w.pending.clear();
      };
  }
}

int g_serverPort = 0;

void chooseAnswer(const httpd::Request& r, httpd::Behaviour* b) {
  const size_t at = r.target.find("/job/x");
  if (at == std::string::npos) return;
  const int v = atoi(r.target.c_str() + at + 6);
  static const httpd::Act acts[] = {httpd::Act::Status,   httpd::Act::StatusClose, httpd::Act::Drop, httpd::Act::Reset,
                                    httpd::Act::Truncate, httpd::Act::Garbage,     httpd::Act::HalfHead, httpd::Act::ResetBody, httpd::Act::BadChunk};
  static const int statuses[] = {200, 202, 400, 500};
  b->act = acts[v % 9];
  b->status = statuses[v / 9 % 4];
}

// Does a quantity grow with every round? Buffers that double, and samples a
// summary still has to merge, come to rest in between.
bool grows(const std::vector<int64_t>& v) {
  const size_t k = 12;
  if (v.size() < 2 * k + 2) return false;
  size_t rises = 0;
  for (size_t i = v.size() - k; i < v.size(); ++i) {
    if (v[i] > v[i - 1]) ++rises;
  }
  const int64_t late = v[v.size() - 1] - v[v.size() - 1 - k];
  const int64_t early = v[v.size() - 1 - k] - v[v.size() - 1 - 2 * k];
  return rises + 1 >= k && late > 0 && early > 0 && late * 2 >= early;
}

void repeat(Source& s, const std::function<void()>& round) {
  std::vector<int64_t> bytes, blocks, fds, threads;
  auto one = [&] {
    round();
    const Usage u = usage();
    bytes.push_back(u.bytes);
    blocks.push_back(u.blocks);
    fds.push_back(u.fds);
    threads.push_back(u.threads);
  };
  bytes.reserve(128);
  blocks.reserve(128);
  fds.reserve(128);
  threads.reserve(128);
  for (int i = 0; i < 6; ++i) one();
  auto rising = [](const std::vector<int64_t>& v) {
    for (size_t i = 2; i < v.size(); ++i) {
      if (v[i] <= v[i - 1]) return false;
    }
    return true;
  };
  if (!rising(bytes) && !rising(fds) && !rising(threads)) return;
  s.cls("looked at closely");
  for (int i = 0; i < 20; ++i) one();
  auto show = [](const std::vector<int64_t>& v) {
    std::string r;
    for (auto x : v) r += std::to_string(x) + " ";
    return r;
  };
  // A summary that still has few observations keeps all of them, in one block.
  PBT_CHECK(!grows(bytes) || !grows(blocks),
            "live heap bytes after each repetition: " << show(bytes) << ", blocks: " << show(blocks));
  PBT_CHECK(!grows(fds), "open descriptors after each repetition: " << show(fds));
  PBT_CHECK(!grows(threads), "threads after each repetition: " << show(threads));
}

void checkSummary(Source& s) {
  static const double qs[] = {0.5, 0.9, 0.99, 0.25};
  static const double es[] = {0.05, 0.01, 0.02};
  const double q = qs[s.draw(4)], e = q > 0.95 ? 0.001 : es[s.draw(3)];
  const size_t n = 12000 + s.draw(12000);
  const bool reads = s.coin();
  const unsigned seed = static_cast<unsigned>(s.draw(1u << 30));
  const int buckets = 1 + static_cast<int>(s.draw(3));
  PBT_NOTE(s, "summary of " << n << " random observations, quantile " << q << " error " << e);
  std::mt19937 g(seed);
  const int64_t before = usage().bytes;
  std::unique_ptr<Summary> m(new Summary(Summary::Quantiles{{q, e}}, std::chrono::hours(10), buckets));
  for (size_t i = 0; i < n; ++i) {
    m->Observe(static_cast<double>(g()));
    if (reads && i % 1000 == 0) m->Collect();
  }
  m->Collect();
  const int64_t used = usage().bytes - before;
  // three words per kept observation, the buffers of the buckets
  const int64_t allowed = buckets * (static_cast<int64_t>(n) * 24 / 3 + 20000);
  PBT_CHECK(used <= allowed, "a summary holds " << used << " bytes after " << n << " observations, allowed " << allowed);
  s.cls("summary");
  s.nontrivial();
}

}  // namespace

namespace pbt {

void pbt_init() {
  __sanitizer_install_malloc_and_free_hooks(allocated, freed);
  signal(SIGPIPE, SIG_IGN);
  int p[2];
  if (pipe(p) != 0) _exit(98);
  const pid_t parent = getpid();
  const pid_t child = fork();
  if (child < 0) _exit(98);
  if (child == 0) {  // the push gateway, apart from what is measured
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    auto* server = new httpd::Server;
    server->choose = chooseAnswer;
    int port = server->port();
    if (write(p[1], &port, sizeof port) != sizeof port) _exit(98);
    for (;;) pause();
  }
  if (read(p[0], &g_serverPort, sizeof g_serverPort) != sizeof g_serverPort) _exit(98);
  close(p[0]);
  close(p[1]);
  curl_global_init(CURL_GLOBAL_ALL);
  { Gateway warm("127.0.0.1", std::to_string(g_serverPort), "x0"); warm.Delete(); warm.AsyncDelete().get(); }
  usage();
}

void pbt_case(Source& s) {
  if (s.chance(1, 12)) {
    checkSummary(s);
    return;
  }
  const bool steady = s.coin();  // the objects live on
  const bool pull = s.chance(1, 3), push = !pull && s.chance(2, 3);
  const std::string job = "x" + std::to_string(s.draw(3) ? 0 : s.draw(28));
  const int gatewayKind = static_cast<int>(s.draw(4));
  const int exposerKind = static_cast<int>(s.draw(3));
  const bool refused = s.chance(1, 8);
  PBT_NOTE(s, (steady ? "steady" : "lifetimes") << (pull ? ", exposer" : push ? ", gateway for " + job : "")
               << (refused ? ", connections refused" : ""));
  const std::string port = refused ? "1" : std::to_string(g_serverPort);
  auto create = [=](World& w) {
    w.registry = std::make_shared<Registry>();
    if (pull) {
      std::vector<std::string> o{"listening_ports", exposerKind == 1 ? "127.0.0.1:0,127.0.0.1:0" : "127.0.0.1:0",
                                 "num_threads", exposerKind == 2 ? "3" : "1"};
      if (exposerKind == 0) {
        w.exposer.reset(new Exposer("127.0.0.1:0", 1));
      } else {
        w.exposer.reset(new Exposer(o));
      }
      w.port = w.exposer->GetListeningPorts().at(0);
      w.exposer->RegisterCollectable(w.registry);
    }
    if (push) {
      switch (gatewayKind) {
        case 0: w.gateway.reset(new Gateway("127.0.0.1", port, job)); break;
        case 1: w.gateway.reset(new Gateway("127.0.0.1", port, job, {{"a", "b"}}, "user", "pass", std::chrono::seconds(9))); break;
        case 2: w.gateway.reset(new Gateway("127.0.0.1", port, [](CURL*) {}, job, Gateway::GetInstanceLabel("x"))); break;
        default: w.gateway.reset(new Gateway("http://127.0.0.1:" + port, [](CURL*) {}, job)); break;
      }
      w.gateway->RegisterCollectable(w.registry);
    }
    auto f = std::make_shared<Fixed>();
    f->families.resize(1);
    f->families[0].name = "always";
    f->families[0].metric.resize(1);
    w.fixed.push_back(f);
  };
  std::vector<Op> ops;
  const size_t n = 1 + s.length(pull || push ? 10 : 20);
  for (size_t i = 0; i < n; ++i) {
    const char* what = "core";
    Op op = pull && s.draw(4) ? pullOp(s, steady, &what) : push && s.draw(4) ? pushOp(s, steady, &what) : coreOp(s, steady);
    PBT_NOTE(s, what);
    ops.push_back(op);
  }
  s.cls(steady ? "steady" : "lifetimes");
  s.cls(pull ? "exposer" : push ? "gateway" : "core");
  if (push && job != "x0") s.cls("failing requests");
  if (n > 1) s.nontrivial();
  World w;
  if (steady) create(w);
  repeat(s, [&] {
    if (!steady) create(w);
    for (auto& op : ops) op(w);
    if (steady) {
      for (auto& f : w.pending) f.get();
      w.pending.clear();
      w.fixed.clear();
    } else {
      w.clear();
    }
  });
  w.clear();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
