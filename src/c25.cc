// C25: life cycles of several exposers on chosen and on free addresses, with
// clients that stall and collectables that block.
#include <CivetServer.h>
#include <dirent.h>
#include <signal.h>

#include <condition_variable>
#include <mutex>
#include <thread>

#include "pullutil.h"

using namespace prometheus;
using namespace pullutil;
using pbt::Source;

namespace {

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  int waiting = 0;
  bool open = false;
  void pass() {
    std::unique_lock<std::mutex> l(m);
    ++waiting;
    cv.notify_all();
    cv.wait(l, [this] { return open; });
  }
  bool reached(int n) {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(10), [&] { return waiting >= n; });
  }
  void release() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

struct Blocking : Collectable {
  std::shared_ptr<Gate> gate;
  std::vector<MetricFamily> Collect() const override {
    gate->pass();
    return {};
  }
};

// civetweb calls it before a request is handled
std::atomic<int> g_begun{0};
int beginRequest(mg_connection*) {
  ++g_begun;
  return 0;
}

struct Live {
  std::unique_ptr<Exposer> exposer;
  std::shared_ptr<Fixed> thing;
  std::vector<int> ports;
  double mark = 0;
  bool allAddresses = false;
  bool callbacks = false;
  size_t threads = 2;
};

int64_t threads() {
  int64_t n = 0;
  DIR* d = opendir("/proc/self/task");
  while (d && readdir(d)) ++n;
  if (d) closedir(d);
  return n - 2;
}

int listenOn(int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int one = 1;
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(static_cast<uint16_t>(port));
  a.sin_addr.s_addr = htonl(httpc::address());
  if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || listen(fd, 5) != 0) {
    close(fd);
    return -1;
  }
  return fd;
}

int portOf(int fd) {
  sockaddr_in a{};
  socklen_t n = sizeof a;
  getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n);
  return ntohs(a.sin_port);
}

bool answers(int port) { return httpc::Conn(port).connected(); }

}  // namespace

namespace pbt {

void pbt_init() {
  signal(SIGPIPE, SIG_IGN);
  httpc::address() = 0x7f400000u + (static_cast<uint32_t>(getpid()) & 0xffff) * 16u + 1;
}

void pbt_case(Source& s) {
  struct Held {  // listening sockets of others
    std::vector<int> fds;
    ~Held() {
      for (int fd : fds) close(fd);
    }
  } held;
  std::vector<Live> live;
  std::vector<int> freed;  // ports nobody listens on any more
  double marks = 0;
  const int64_t threadsBefore = threads();

  auto freePort = [&] {
    // not one that the system could choose for a port 0 of the same list
    static int next = 10000 + static_cast<int>(getpid() % 20000);
    for (;;) {
      if (++next >= 32000) next = 10000;
      const int fd = listenOn(next);
      if (fd < 0) continue;
      close(fd);
      return next;
    }
  };
  auto taken = [&](int p) {
    for (auto& l : live) {
      for (int q : l.ports) {
        if (q == p) return true;
      }
    }
    for (int fd : held.fds) {
      if (portOf(fd) == p) return true;
    }
    return false;
  };
  auto scrape = [&](Live& l, size_t at) {
    std::ostringstream what;
    what << "scrape of port " << at + 1 << " of " << l.ports.size() << " of exposer " << l.mark;
    const int before = g_begun;
    const auto r = httpc::get(l.ports[at], "/metrics");
    PBT_CHECK(g_begun - before == (l.callbacks ? 1 : 0), what.str() << ": " << g_begun - before << " calls of the callback");
    consume(metricsText(r, false, what.str()), {textOf(*l.thing)}, what.str());
  };
  auto checkAll = [&] {
    for (auto& l : live) {
      for (size_t k = 0; k < l.ports.size(); ++k) scrape(l, k);
    }
    for (int p : freed) {
      if (!taken(p)) PBT_CHECK(!answers(p), "something listens on a port nobody should listen on");
    }
  };
  size_t constructed = 0, destroyed = 0, refused = 0;

  auto construct = [&] {
    const size_t n = 1 + s.draw(3);
    std::string list;
    std::vector<int> want;  // 0: any
    bool impossible = false;
    bool all = false;
    std::vector<int> chosen;
    for (size_t i = 0; i < n; ++i) {
      int p = 0;
      switch (s.weighted({4, 3, 2, 2, 1})) {
        case 0: break;
        case 1: p = freePort(); break;
        case 2:  // used before
          if (!freed.empty()) p = freed[s.draw(freed.size())];
          break;
        case 3: {  // in use
          std::vector<int> used;
          for (auto& l : live) {
            if (!l.allAddresses) used.insert(used.end(), l.ports.begin(), l.ports.end());
          }
          for (int fd : held.fds) used.push_back(portOf(fd));
          if (!used.empty()) p = used[s.draw(used.size())];
          break;
        }
        default:
          all = n == 1;
      }
      for (int q : want) {
        if (p && p == q) p = 0;
      }
      if (p && taken(p)) impossible = true;
      want.push_back(p);
      if (p && !taken(p)) chosen.push_back(p);
      if (i) list += ",";
      list += all ? "0" : httpc::ownAddress() + ":" + std::to_string(p);
    }
    if (s.chance(1, 12)) {
      static const char* bad[] = {"", "nonsense", "127.0.0.1", "127.0.0.1:99999", "256.0.0.1:0", "127.0.0.1:0,x"};
      list = bad[s.draw(6)];
      impossible = true;
      all = false;
    }
    Live l;
    l.mark = ++marks;
    l.allAddresses = all;
    l.threads = 1 + s.draw(4);
    if (const size_t more = gen::bulk(s, 60, 8)) l.threads = more;
    l.callbacks = s.chance(1, 3);
    CivetCallbacks callbacks;
    callbacks.begin_request = beginRequest;
    const CivetCallbacks* cb = l.callbacks ? &callbacks : nullptr;
    const bool options = s.coin();
    const bool order = s.coin();
    PBT_NOTE(s, "exposer " << l.mark << " on " << list << ", " << l.threads << " threads"
                           << (options ? ", options" : "") << (impossible ? " (impossible)" : ""));
    bool thrown = false;
    try {
      if (options) {
        std::vector<std::string> o{"listening_ports", list};
        std::vector<std::string> t{"num_threads", std::to_string(l.threads)};
        o.insert(order ? o.end() : o.begin(), t.begin(), t.end());
        l.exposer.reset(new Exposer(o, cb));
      } else if (l.threads == 2 && !cb) {
        l.exposer.reset(new Exposer(list));
      } else {
        l.exposer.reset(new Exposer(list, l.threads, cb));
      }
    } catch (const CivetException&) {
      thrown = true;
    }
    if (impossible) {
      PBT_CHECK(thrown, "an exposer was constructed on " << list);
      ++refused;
      for (int p : chosen) freed.push_back(p);
      return;
    }
    PBT_CHECK(!thrown, "no exposer could be constructed on " << list);
    l.ports = l.exposer->GetListeningPorts();
    PBT_CHECK(l.ports.size() == want.size(), l.ports.size() << " listening ports instead of " << want.size());
    for (size_t i = 0; i < n; ++i) {
      PBT_CHECK(l.ports[i] > 0 && l.ports[i] < 65536 && (!want[i] || l.ports[i] == want[i]),
                "port " << i + 1 << " is " << l.ports[i] << " instead of " << want[i] << " of " << list);
      for (size_t k = 0; k < i; ++k) PBT_CHECK(l.ports[i] != l.ports[k], "the same port twice");
    }
    l.thing = std::make_shared<Fixed>();
    l.thing->families = {numberFamily("mark", l.mark)};
    for (int p : l.ports) PBT_CHECK(answers(p), "an exposer does not listen after construction");
    if (s.coin()) {  // nothing registered yet
      PBT_CHECK(httpc::get(l.ports[0], "/metrics").status == 404, "metrics before anything was registered");
    }
    l.exposer->RegisterCollectable(l.thing);
    live.push_back(std::move(l));
    ++constructed;
  };
  auto destroy = [&](size_t k) {
    PBT_NOTE(s, "destroy exposer " << live[k].mark);
    std::vector<int> ports = live[k].ports;
    live[k].exposer.reset();
    live.erase(live.begin() + static_cast<long>(k));
    ++destroyed;
    for (int p : ports) {
      PBT_CHECK(!answers(p), "an exposer listens after its destruction");
      const int fd = listenOn(p);
      PBT_CHECK(fd >= 0, "the port of a destroyed exposer is not free");
      close(fd);
      freed.push_back(p);
    }
  };
  // clients and collectables that stall
  auto stall = [&](Live& l) {
    const size_t n = s.coin() ? l.threads - 1 : 1 + s.draw(l.threads - 1);
    PBT_NOTE(s, n << " of " << l.threads << " threads of exposer " << l.mark << " stalled");
    const bool huge = s.chance(1, 3);
    struct Stalled {
      std::shared_ptr<Gate> gate = std::make_shared<Gate>();
      std::vector<std::shared_ptr<Blocking>> blocking;
      std::vector<std::unique_ptr<httpc::Conn>> conns;
      std::vector<std::string> paths;
      Exposer* exposer;
      ~Stalled() {
        gate->release();
        for (size_t i = 0; i < blocking.size(); ++i) exposer->RemoveCollectable(blocking[i], paths[i]);
      }
    } st;
    st.exposer = l.exposer.get();
    int blocked = 0;
    auto big = std::make_shared<Fixed>();
    if (huge) {
      big->families = {numberFamily("big", 1)};
      big->families[0].help = std::string(12000000, 'h');
      l.exposer->RegisterCollectable(big, "/metrics");
    }
    for (size_t i = 0; i < n; ++i) {
      const int port = l.ports[s.draw(l.ports.size())];
      const size_t how = huge ? 2 : s.weighted({3, 2, 0, 1});
      std::unique_ptr<httpc::Conn> c(new httpc::Conn(port, how == 2 ? 4096 : 0));
      PBT_CHECK(c->connected(), "no connection");
      switch (how) {
        case 0: {  // a collectable blocks
          auto b = std::make_shared<Blocking>();
          b->gate = st.gate;
          st.blocking.push_back(b);
          st.paths.push_back("/blocked" + std::to_string(i));
          l.exposer->RegisterCollectable(b, st.paths.back());
          c->send("GET " + st.paths.back() + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
          ++blocked;
          PBT_CHECK(st.gate->reached(blocked), "request " << blocked << " of " << n << " is not served within 10 s by " << l.threads << " threads");
          break;
        }
        case 1: c->send("GET /metrics HTTP/1.1\r\nHo"); break;
        case 2: {
          c->send("GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
          PBT_CHECK(c->arrived(10000), "no response to request " << i + 1 << " of " << n << " by " << l.threads << " threads");
          break;
        }
        default: break;
      }
      st.conns.push_back(std::move(c));
    }
    if (huge) {
      big->families.clear();
      s.cls("stalled readers");
    } else {
      s.cls("stalled");
    }
    httpc::Conn c(l.ports[0]);
    c.send("GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
    PBT_CHECK(c.connected() && c.arrived(10000), "no answer within 10 s, with " << n << " of " << l.threads << " threads stalled");
    const auto r = c.receive();
    consume(metricsText(r, false, "scrape"), {textOf(*l.thing)}, "scrape");
    if (huge) l.exposer->RemoveCollectable(big);
    s.nontrivial();
  };

  const size_t ops = 2 + s.length(12);
  for (size_t i = 0; i < ops; ++i) {
    switch (s.weighted({5, 3, 2, 2, 1})) {
      case 0:
        if (live.size() < 4) construct();
        break;
      case 1:
        if (!live.empty()) destroy(s.draw(live.size()));
        break;
      case 2: checkAll(); break;
      case 3: {
        if (live.empty()) break;
        Live& l = live[s.draw(live.size())];
        if (l.threads > 1 && !l.callbacks) stall(l);
        break;
      }
      default: {
        const int fd = listenOn(0);
        if (fd >= 0) held.fds.push_back(fd);
        break;
      }
    }
  }
  checkAll();
  while (!live.empty()) destroy(s.draw(live.size()));
  checkAll();
  for (int t = 0; t < 2000 && threads() > threadsBefore; ++t) usleep(1000);
  PBT_CHECK(threads() <= threadsBefore, threads() - threadsBefore << " threads remain");
  if (refused) s.cls("refused");
  if (constructed > 1) s.cls("several exposers");
  if (constructed > 1 || refused) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
