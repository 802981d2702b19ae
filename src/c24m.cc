// C24: one operation, repeated thousands of times with other names, values and
// credentials each time. What is kept per repetition shows as growth that
// doubles with their number, also if it hides in vectors that double.
#include <CivetServer.h>
#include <curl/curl.h>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <sys/prctl.h>

#include <functional>
#include <future>
#include <memory>
#include <sstream>
#include <stdexcept>

#include "gen.h"
#include "httpc.h"
#include "httpd.h"
#include "pbt.h"
#include "prometheus/check_names.h"
#include "prometheus/counter.h"
#include "prometheus/detail/base64.h"
#include "prometheus/exposer.h"
#include "prometheus/family.h"
#include "prometheus/gateway.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;

namespace {

int64_t heap() { return static_cast<int64_t>(__sanitizer_get_current_allocated_bytes()); }

struct Fixed : Collectable {
  std::vector<MetricFamily> families;
  std::vector<MetricFamily> Collect() const override { return families; }
};

std::shared_ptr<Fixed> thing(const std::string& n) {
  auto f = std::make_shared<Fixed>();
  f->families.resize(1);
  f->families[0].name = "n" + n;
  f->families[0].help = "help " + n;
  f->families[0].type = MetricType::Gauge;
  f->families[0].metric.resize(1);
  f->families[0].metric[0].label.push_back({"l", n});
  return f;
}

struct Marathon {
  std::string name;
  size_t rounds;     // before the first measurement
  int measured = 4;  // how often the heap is looked at, with twice as many rounds each time
  std::function<void(const std::string&)> round;
  std::shared_ptr<void> hold;
};

template <class T, class B, class A>
void familyKind(Source& s, Marathon& m, B builder, A add) {
  struct Hold {
    Registry reg;
    Family<T>* f = nullptr;
  };
  auto h = std::make_shared<Hold>();
  h->f = &builder().Name("stays").Register(h->reg);
  m.hold = h;
  m.rounds = 1000;
  switch (s.draw(5)) {
    case 0:
      m.name = "add and remove a metric";
      m.round = [=](const std::string& n) {
        auto& x = add(*h->f, Labels{{"l" + n, n}, {"m", n + n}});
        h->f->Has({{"l" + n, n}});
        h->f->Remove(&x);
      };
      break;
    case 1:
      m.name = "register and remove a family";
      m.round = [=](const std::string& n) {
        auto& f = builder().Name("f" + n).Help(n).Labels({{"c", n}}).Register(h->reg);
        add(f, Labels{{"l", n}});
        h->reg.Collect();
        h->reg.Remove(f);
      };
      break;
    case 2:
      m.name = "rejected names";
      m.round = [=](const std::string& n) {
        try {
          builder().Name("0" + n).Register(h->reg);
        } catch (const std::invalid_argument&) {
        }
        try {
          builder().Name("stays").Labels({{"l" + n, n}}).Register(h->reg);
        } catch (const std::invalid_argument&) {
        }
        try {
          add(*h->f, Labels{{"__" + n, n}});
        } catch (const std::invalid_argument&) {
        }
      };
      break;
    case 3:
      m.name = "collect and serialize";
      m.round = [=](const std::string& n) {
        auto& x = add(*h->f, Labels{{"l", n}});
        auto all = h->reg.Collect();
        all[0].help = n;
        all[0].name += n;
        TextSerializer{}.Serialize(all);
        std::ostringstream os;
        TextSerializer{}.Serialize(os, all);
        h->f->Remove(&x);
      };
      break;
    default:
      m.name = "registries";
      m.round = [=](const std::string& n) {
        auto r = std::make_shared<Registry>(Registry::InsertBehavior::Throw);
        add(builder().Name("f" + n).Register(*r), Labels{{"l", n}});
        r->Collect();
      };
      break;
  }
  m.name += std::string(" (") + gen::typeName(T::metric_type) + ")";
}

void core(Source& s, Marathon& m) {
  switch (s.draw(8)) {
    case 0:
      return familyKind<Counter>(s, m, [] { return BuildCounter(); },
                                 [](Family<Counter>& f, const Labels& l) -> Counter& { return f.Add(l); });
    case 1:
      return familyKind<Gauge>(s, m, [] { return BuildGauge(); },
                               [](Family<Gauge>& f, const Labels& l) -> Gauge& { return f.Add(l, 2.0); });
    case 2:
      return familyKind<Info>(s, m, [] { return BuildInfo(); },
                              [](Family<Info>& f, const Labels& l) -> Info& { return f.Add(l); });
    case 3:
      return familyKind<Histogram>(s, m, [] { return BuildHistogram(); },
                                   [](Family<Histogram>& f, const Labels& l) -> Histogram& {
                                     auto& h = f.Add(l, Histogram::BucketBoundaries{1, 2});
                                     h.Observe(1);
                                     return h;
                                   });
    case 4: {
      return familyKind<Summary>(s, m, [] { return BuildSummary(); },
                                 [](Family<Summary>& f, const Labels& l) -> Summary& {
                                   auto& x = f.Add(l, Summary::Quantiles{{0.5, 0.05}});
                                   x.Observe(1);
                                   return x;
                                 });
    }
    case 5: {
      struct Hold {
        Counter c;
        Gauge g;
        Histogram h{Histogram::BucketBoundaries{1, 2, 3}};
        double v = 0;
      };
      auto h = std::make_shared<Hold>();
      m.name = "updates";
      m.hold = h;
      m.rounds = 4000;
      m.round = [h](const std::string&) {
        h->v += 0.37;
        h->c.Increment();
        h->c.Increment(h->v);
        h->c.Collect();
        if (static_cast<int>(h->v) % 7 == 0) h->c.Reset();
        h->g.Set(h->v);
        h->g.Decrement(3);
        h->g.SetToCurrentTime();
        h->g.Collect();
        h->h.Observe(h->v);
        h->h.ObserveMultiple({1, 2, 3, 4}, h->v);
        if (static_cast<int>(h->v) % 11 == 0) h->h.Reset();
        h->h.Collect();
      };
      return;
    }
    case 6: {
      auto x = std::make_shared<Summary>(Summary::Quantiles{{0.5, 0.05}}, std::chrono::milliseconds(1), 2);
      auto v = std::make_shared<double>(0);
      m.name = "summary with a short window";
      m.hold = x;
      m.rounds = 2000;
      m.round = [x, v](const std::string&) {
        x->Observe(*v += 0.7);
        if (static_cast<int>(*v) % 5 == 0) x->Collect();
      };
      return;
    }
    default:
      m.name = "names and base64";
      m.rounds = 2000;
      m.round = [](const std::string& n) {
        CheckMetricName("m" + n);
        CheckMetricName("-" + n);
        CheckLabelName("l" + n, MetricType::Summary);
        detail::base64_decode(detail::base64_encode(n));
        detail::base64url_encode(n);
        try {
          detail::base64_decode("=" + n);
        } catch (const std::exception&) {
        }
      };
  }
}

// after so many latencies the summary of an endpoint does not get larger
constexpr size_t kSettled = 5000;

void pull(Source& s, Marathon& m) {
  struct Hold {
    std::unique_ptr<Exposer> exposer;
    std::shared_ptr<Fixed> content = thing("0");
    int port = 0;
    std::unique_ptr<httpc::Conn> conn;
  };
  auto h = std::make_shared<Hold>();
  m.hold = h;
  h->exposer.reset(new Exposer({"listening_ports", "127.0.0.1:0", "num_threads", "2", "enable_keep_alive", "yes",
                                "keep_alive_timeout_ms", "30000"}));
  h->port = h->exposer->GetListeningPorts().at(0);
  h->exposer->RegisterCollectable(h->content);
  auto request = [h](const std::string& target, const std::string& headers, int want) {
    for (int attempt = 0; attempt < 2; ++attempt) {
      if (!h->conn) h->conn.reset(new httpc::Conn(h->port));
      h->conn->send("GET " + target + " HTTP/1.1\r\nHost: localhost\r\n" + headers + "\r\n");
      const auto r = h->conn->receive();
      if (r.status != 200 || !r.complete) h->conn.reset();
      if (!r.complete && attempt == 0) continue;
      PBT_CHECK(r.complete && r.status == want, target << ": " << r.status << " " << r.error);
      return;
    }
  };
  switch (s.draw(5)) {
    case 0: {
      const bool gzip = s.coin();
      m.name = gzip ? "compressed scrapes" : "scrapes";
      m.rounds = kSettled;
      m.measured = 3;
      m.round = [=](const std::string& n) {
        h->content->families[0].help = n;
        request("/metrics?" + n, gzip ? "Accept-Encoding: gzip, x" + n + "\r\n" : "X-A: " + n + "\r\n", 200);
      };
      break;
    }
    case 1:
      m.name = "authorized scrapes";
      m.rounds = kSettled;
      m.measured = 3;
      h->exposer->RegisterAuth([](const std::string& u, const std::string& p) { return u == p; }, "r");
      m.round = [=](const std::string& n) {
        request("/metrics", "Authorization: Basic " + detail::base64_encode(n + ":" + n) + "\r\n", 200);
      };
      break;
    case 2:
      m.name = "unauthorized scrapes";
      m.rounds = 200;
      h->exposer->RegisterAuth([](const std::string& u, const std::string& p) { return u == p; }, "r");
      m.round = [=](const std::string& n) {
        request("/metrics", "Authorization: Basic " + detail::base64_encode(n + ":x" + n) + "\r\n", 401);
      };
      break;
    case 3:
      m.name = "register and remove at an exposer";
      m.rounds = 1000;
      m.round = [=](const std::string& n) {
        auto f = thing(n);
        h->exposer->RegisterCollectable(f);
        h->exposer->RemoveCollectable(f);
      };
      break;
    default:
      m.name = "register at an exposer and destroy";
      m.rounds = 1000;
      m.round = [=](const std::string& n) { h->exposer->RegisterCollectable(thing(n)); };
      break;
  }
}

int g_serverPort = 0;

void push(Source& s, Marathon& m) {
  struct Hold {
    std::unique_ptr<Gateway> gateway;
    std::shared_ptr<Fixed> content = thing("0");
  };
  auto h = std::make_shared<Hold>();
  m.hold = h;
  const bool refused = s.chance(1, 4);
  const std::string port = refused ? "1" : std::to_string(g_serverPort);
  h->gateway.reset(new Gateway("127.0.0.1", port, "j", {{"a", "b"}}));
  m.rounds = 400;
  switch (s.draw(5)) {
    case 0:
    case 1: {
      const int kind = static_cast<int>(s.draw(4));
      static const char* names[] = {"push", "push-add", "delete", "delete of the instance"};
      m.name = names[kind];
      h->gateway->RegisterCollectable(h->content);
      m.round = [=](const std::string& n) {
        h->content->families[0].help = n;
        switch (kind) {
          case 0: h->gateway->Push(); break;
          case 1: h->gateway->PushAdd(); break;
          case 2: h->gateway->Delete(); break;
          default: h->gateway->DeleteForInstance(); break;
        }
      };
      break;
    }
    case 2: {
      const int kind = static_cast<int>(s.draw(4));
      static const char* names[] = {"asynchronous push", "asynchronous push-add", "asynchronous delete",
                                    "asynchronous delete of the instance"};
      m.name = names[kind];
      m.rounds = 150;
      h->gateway->RegisterCollectable(h->content);
      m.round = [=](const std::string& n) {
        h->content->families[0].help = n;
        switch (kind) {
          case 0: h->gateway->AsyncPush().get(); break;
          case 1: h->gateway->AsyncPushAdd().get(); break;
          case 2: h->gateway->AsyncDelete().get(); break;
          default: h->gateway->AsyncDeleteForInstance().get(); break;
        }
      };
      break;
    }
    case 3: {
      m.name = "register at a gateway and destroy";
      const bool pushes = s.coin();
      m.round = [=](const std::string& n) {
        auto f = thing(n);
        const Labels l{{"k", n}};
        h->gateway->RegisterCollectable(f, &l);
        if (pushes) h->gateway->Push();
      };
      break;
    }
    default:
      m.name = "gateways";
      m.rounds = 150;
      m.round = [=](const std::string& n) {
        auto f = thing(n);
        Gateway g("127.0.0.1", port, "j" + n, {{"l", n}}, n, n);
        g.RegisterCollectable(f);
        g.AddHttpHeader("X-" + n + ": y");
        g.Push();
      };
      break;
  }
  if (refused) m.name += ", refused";
}

}  // namespace

namespace pbt {

void pbt_init() {
  signal(SIGPIPE, SIG_IGN);
  int p[2];
  if (pipe(p) != 0) _exit(98);
  const pid_t parent = getpid();
  const pid_t child = fork();
  if (child < 0) _exit(98);
  if (child == 0) {  // the push gateway, apart from what is measured
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    auto* server = new httpd::Server;
    server->choose = [](const httpd::Request&, httpd::Behaviour*) {};
    int port = server->port();
    if (write(p[1], &port, sizeof port) != sizeof port) _exit(98);
    for (;;) pause();
  }
  if (read(p[0], &g_serverPort, sizeof g_serverPort) != sizeof g_serverPort) _exit(98);
  close(p[0]);
  close(p[1]);
  curl_global_init(CURL_GLOBAL_ALL);
}

void pbt_case(Source& s) {
  Marathon m;
  switch (s.weighted({5, 3, 3})) {
    case 0: core(s, m); break;
    case 1: pull(s, m); break;
    default: push(s, m); break;
  }
  // names of the same length, so that they need the same memory
  uint64_t serial = 10000000 + s.draw(1000000);
  const bool longNames = s.coin();
  PBT_NOTE(s, m.name << ", " << m.rounds << " rounds first" << (longNames ? ", long names" : ""));
  s.cls(m.name);
  std::vector<int64_t> at;
  size_t done = 0;
  for (int stretch = 0; stretch < m.measured; ++stretch) {
    for (; done < m.rounds << stretch; ++done) {
      m.round((longNames ? std::string(40, 'n') : std::string()) + std::to_string(serial++));
    }
    at.push_back(heap());
  }
  // four bytes for every repetition, in each stretch
  bool linear = true;
  std::ostringstream os;
  for (size_t i = 0; i < at.size(); ++i) os << (i ? ", " : "") << (m.rounds << i) << ": " << at[i];
  for (size_t i = 1; i < at.size(); ++i) {
    linear = linear && at[i] - at[i - 1] >= 4 * static_cast<int64_t>(m.rounds << (i - 1));
    if (i > 1) linear = linear && (at[i] - at[i - 1]) * 2 >= (at[i - 1] - at[i - 2]) * 3;
  }
  PBT_NOTE(s, "live heap bytes after rounds " << os.str());
  PBT_CHECK(!linear, m.name << ": live heap bytes grow with the repetitions: " << os.str());
  s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
