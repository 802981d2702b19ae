// C18: an exposer under arbitrary interleavings of scrapes and
// reconfiguration, on a stand-in for the network part of civetweb; with REAL
// on the real one, with the interleavings the system happens to produce.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#ifdef REAL
#include <fcntl.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "untracked.h"
#else
#include "civetstub.h"
#include "dsched.h"
#endif
#include "pullutil.h"

using namespace prometheus;
using pbt::Source;
using untracked::str;
using untracked::Vec;

#ifdef REAL
namespace sched {

std::atomic<uint64_t> g_now{0};
std::atomic<uint64_t> g_seed{0};
std::mutex g_mutex;
std::string g_report;

uint64_t now() { return ++g_now; }
int self() { return -1; }
void report(const std::string& m) {
  std::lock_guard<std::mutex> l(g_mutex);
  g_report = m;
}
uint64_t random() {
  uint64_t x = g_seed.fetch_add(0x9e3779b97f4a7c15ull) + 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
void yield() {
  const uint64_t r = random();
  if (r % 3 == 0) std::this_thread::yield();
  if (r % 3 == 1) usleep(static_cast<useconds_t>(1u << (r / 3 % 12)));
}
void run(Source& s, const std::vector<std::function<void()>>& bodies) {
  g_seed = s.draw(1ull << 62);
  g_report.clear();
  std::vector<std::thread> t;
  for (auto& b : bodies) t.emplace_back(b);
  for (auto& x : t) x.join();
  if (!g_report.empty()) pbt::fail(g_report);
}

}  // namespace sched
#endif

namespace {

#ifdef REAL
std::mutex g_logMutex;
int g_firstFree = 0;
struct LogLock : std::lock_guard<std::mutex> {
  LogLock() : std::lock_guard<std::mutex>(g_logMutex) {}
};
#else
struct LogLock {
  LogLock() {}
};
#endif

struct Collected {
  int id, thread;
  uint64_t at, end;
};
struct Asked {
  int version, thread;
  uint64_t at, end;
};
struct Log {
  Vec<Collected> collected;
  Vec<Asked> asked;
};
Log* g_log;

std::vector<MetricFamily> content(int id, size_t serial) {
  std::vector<MetricFamily> r(2);
  r[0].name = "c" + std::to_string(id) + "_" + std::to_string(serial);
  r[1].name = "end" + std::to_string(id) + "_" + std::to_string(serial);
  for (auto& f : r) {
    f.type = MetricType::Gauge;
    f.metric.resize(1);
  }
  return r;
}

struct Thing : Collectable {
  explicit Thing(int i) : id(i), text("thing") {}
  ~Thing() override { sched::yield(); }
  int id;
  std::string text;
  std::vector<MetricFamily> Collect() const override {
    size_t serial;
    {
      LogLock l;
      serial = g_log->collected.size();
      g_log->collected.push_back({id, sched::self(), sched::now(), 0});
    }
    sched::yield();
    auto r = content(id, serial);
    sched::yield();
    if (text != "thing") sched::report("a collectable lost its content");
    LogLock l;
    g_log->collected[serial].end = sched::now();
    return r;
  }
};

// asks for the user u<version>
struct Auth {
  explicit Auth(int v) : version(v), user(new std::string("u" + std::to_string(v))) {}
  Auth(const Auth& a) : version(a.version), user(new std::string(*a.user)) {}
  int version;
  std::unique_ptr<std::string> user;
  bool operator()(const std::string& u, const std::string& p) const {
    size_t k;
    {
      LogLock l;
      k = g_log->asked.size();
      g_log->asked.push_back({version, sched::self(), sched::now(), 0});
    }
    sched::yield();
    const bool r = u == *user && p == "pw";
    sched::yield();
    LogLock l;
    g_log->asked[k].end = sched::now();
    return r && u == *user;
  }
};

enum Kind { Scrape, Register, Remove, Drop, SetAuth, Destroy };
const char* kNames[] = {"scrape", "register", "remove", "drop", "authentication", "destroy"};
const char* kUris[] = {"/a", "/b", "/metrics"};

struct Op {
  Kind kind = Scrape;
  int uri = 0, arg = 0;  // arg: collectable, version, or version asked for (-1: no credentials)
  bool gzip = false;
  int thread = 0;
  uint64_t inv = 0, ret = 0;
  // of a scrape
  bool refused = false;
  untracked::Str out;
  httpc::Response answer;
};

const char* kTokens[] = {"Basic dTA6cHc=", "Basic dTE6cHc=", "Basic dTI6cHc=", "Basic dTM6cHc=", "Basic dTQ6cHc=",
                         "Basic dTU6cHc="};  // u0:pw ... u5:pw

#ifndef REAL
httpc::Response parse(const std::string& out) {
  httpc::Response r;
  const size_t end = out.find("\r\n\r\n");
  PBT_CHECK(end != std::string::npos, "no end of the header in " << pbt::esc(out));
  size_t at = 0;
  while (at < end + 2) {
    const size_t e = out.find("\r\n", at);
    const std::string line = out.substr(at, e - at);
    if (at == 0) {
      PBT_CHECK(line.compare(0, 9, "HTTP/1.1 ") == 0 && line.size() >= 12, "status line " << pbt::esc(line));
      r.status = std::stoi(line.substr(9, 3));
    } else {
      const size_t c = line.find(':');
      PBT_CHECK(c != std::string::npos, "header " << pbt::esc(line));
      std::string k = line.substr(0, c), v = line.substr(c + 1);
      for (auto& x : k) x = static_cast<char>(tolower(x));
      while (!v.empty() && v[0] == ' ') v.erase(0, 1);
      r.headers.push_back({k, v});
    }
    at = e + 2;
  }
  r.body = out.substr(end + 4);
  const auto n = r.all("content-length");
  r.complete = n.size() == 1 && n[0] == std::to_string(r.body.size());
  if (!r.complete) r.error = "body of " + std::to_string(r.body.size()) + " bytes and " + (n.empty() ? "no" : n[0]) + " announced";
  return r;
}
#endif

}  // namespace

namespace pbt {

void pbt_init() {
#ifdef REAL
  g_firstFree = open("/dev/null", O_RDONLY);
  close(g_firstFree);
  httpc::address() = INADDR_LOOPBACK + (static_cast<uint32_t>(getpid()) & 0xffff) * 128u;
#endif
  g_log = static_cast<Log*>(malloc(sizeof(Log)));
}

void pbt_case(Source& s) {
  new (g_log) Log;
  struct Clear {
    ~Clear() {
      g_log->~Log();
#ifdef REAL
      // civetweb does not close what it accepted but did not serve
      for (int f = g_firstFree; f < g_firstFree + 64; ++f) close(f);
      httpc::gone() = false;
#else
      if (civetstub::g_context) {
        for (auto* h : civetstub::g_context->requests) civetstub::destroy(h);
        for (auto* h : civetstub::g_context->auths) civetstub::destroy(h);
        civetstub::destroy(civetstub::g_context);
      }
      civetstub::g_context = nullptr;
#endif
    }
  } clear;
#ifdef REAL
  std::unique_ptr<Exposer> exposer(new Exposer(httpc::ownAddress() + ":0", 2 + s.draw(3)));
  const int port = exposer->GetListeningPorts().at(0);
#else
  std::unique_ptr<Exposer> exposer(new Exposer("0", 1));
#endif
  const bool destroys = s.chance(2, 5);
  const size_t admins = destroys ? 1 : 1 + s.draw(2);
  const size_t threads = admins + 1 + s.draw(admins == 2 ? 2 : 3);
  const size_t uris = 1 + s.draw(3);
  std::vector<std::shared_ptr<Thing>> things;
  struct Registration {
    int thing, uri;
    uint64_t addInv = 0, addRet = 0, removeInv = ~0ull, removeRet = ~0ull;
  };
  std::vector<Op> setup;
  std::vector<std::vector<Op>> plan(threads);
  int versions = 0;
  // thing -> owning thread and paths
  struct Own {
    size_t owner;
    std::set<int> at;
    bool alive = true;
  };
  std::vector<Own> own;
  auto note = [&](const Op& o, const std::string& who) {
    PBT_NOTE(s, who << ": " << kNames[o.kind] << " " << kUris[o.uri] << " " << o.arg << (o.gzip ? " gzip" : ""));
  };
  auto registration = [&](size_t owner, Op* o) {
    o->kind = Register;
    o->uri = static_cast<int>(s.draw(uris));
    std::vector<int> c;
    for (size_t i = 0; i < own.size(); ++i) {
      if (own[i].alive && own[i].owner == owner && !own[i].at.count(o->uri)) c.push_back(static_cast<int>(i));
    }
    if (c.empty() || (things.size() < 6 && s.coin())) {
      if (things.size() >= 6) return false;
      c.assign(1, static_cast<int>(things.size()));
      things.push_back(std::make_shared<Thing>(c[0]));
      own.push_back({owner, {}, true});
    }
    o->arg = c[s.draw(c.size())];
    own[static_cast<size_t>(o->arg)].at.insert(o->uri);
    return true;
  };
  const size_t initial = s.draw(4);
  for (size_t i = 0; i < initial; ++i) {
    Op o;
    if (s.chance(1, 4)) {
      o.kind = SetAuth;
      o.uri = static_cast<int>(s.draw(uris));
      o.arg = versions++;
    } else if (!registration(s.draw(admins), &o)) {
      continue;
    }
    note(o, "first");
    setup.push_back(o);
  }
  size_t changes = 0, scrapes = 0;
  for (size_t t = 0; t < threads; ++t) {
    const bool admin = t < admins;
    const size_t n = 1 + s.draw(admin ? 5 : 4);
    for (size_t i = 0; i < n; ++i) {
      Op o;
      o.thread = static_cast<int>(t);
      Kind k = admin ? static_cast<Kind>(s.weighted({1, 4, 3, 3, 3})) : Scrape;
      if (k == Remove || k == Drop) {
        std::vector<std::pair<int, int>> c;
        for (size_t x = 0; x < own.size(); ++x) {
          if (!own[x].alive || own[x].owner != t) continue;
          if (k == Drop) c.push_back({static_cast<int>(x), 0});
          if (k == Remove) {
            for (int u : own[x].at) c.push_back({static_cast<int>(x), u});
          }
        }
        if (c.empty()) {
          k = Register;
        } else {
          auto p = c[s.draw(c.size())];
          o.kind = k;
          o.arg = p.first;
          o.uri = p.second;
          if (k == Drop) {
            own[static_cast<size_t>(o.arg)].alive = false;
          } else {
            own[static_cast<size_t>(o.arg)].at.erase(o.uri);
          }
        }
      }
      if (k == SetAuth && versions >= 5) k = Register;
      if (k == SetAuth) {
        o.kind = k;
        o.uri = static_cast<int>(s.draw(uris));
        o.arg = versions++;
      }
      if (k == Register && !registration(t, &o)) k = Scrape;
      if (k == Scrape) {
        o.kind = k;
        o.uri = static_cast<int>(s.draw(uris));
        o.arg = static_cast<int>(s.draw(7)) - 1;  // fixed below
        o.gzip = s.chance(1, 4);
        ++scrapes;
      } else {
        ++changes;
      }
      plan[t].push_back(o);
    }
  }
  // credentials: mostly of a version of that path
  for (auto& p : plan) {
    for (auto& o : p) {
      if (o.kind != Scrape) continue;
      std::vector<int> v;
      for (auto* q : {&setup}) {
        for (auto& x : *q) {
          if (x.kind == SetAuth && x.uri == o.uri) v.push_back(x.arg);
        }
      }
      for (auto& q : plan) {
        for (auto& x : q) {
          if (x.kind == SetAuth && x.uri == o.uri) v.push_back(x.arg);
        }
      }
      if (!v.empty() && o.arg > 0) {
        o.arg = v[static_cast<size_t>(o.arg) % v.size()];
      } else if (o.arg > 0) {
        o.arg = -1;
      }
    }
  }
  if (destroys) {
    Op o;
    o.kind = Destroy;
    plan[0].push_back(o);
    ++changes;
  }
  for (auto& p : plan) {
    for (auto& o : p) note(o, "thread " + std::to_string(o.thread));
  }
  // everybody holds what he uses; what nobody drops lives on
  std::vector<std::vector<std::shared_ptr<Thing>>> owned(threads, std::vector<std::shared_ptr<Thing>>(things.size()));
  for (size_t i = 0; i < own.size(); ++i) owned[own[i].owner][i] = things[i];
  const size_t total = things.size();
  things.clear();
  auto admin = [&](const Op& o, std::vector<std::shared_ptr<Thing>>& mine) {
    const std::string uri = kUris[o.uri];
    switch (o.kind) {
      case Register: exposer->RegisterCollectable(mine[static_cast<size_t>(o.arg)], uri); break;
      case Remove: exposer->RemoveCollectable(mine[static_cast<size_t>(o.arg)], uri); break;
      case Drop: mine[static_cast<size_t>(o.arg)].reset(); break;
      case SetAuth: exposer->RegisterAuth(Auth(o.arg), "realm" + std::to_string(o.arg), uri); break;
      case Destroy:
        exposer.reset();
#ifdef REAL
        httpc::gone() = true;
#endif
        break;
      case Scrape: break;
    }
  };
  for (auto& o : setup) {
    o.inv = sched::now();
    size_t owner = 0;
    if (o.kind == Register) owner = own[static_cast<size_t>(o.arg)].owner;
    admin(o, owned[owner]);
    o.ret = sched::now();
  }
  auto scrape = [&](Op& o) {
#ifdef REAL
    const std::string credentials = o.arg >= 0 ? "Authorization: " + std::string(kTokens[o.arg]) + "\r\n" : "";
    o.answer = httpc::get(port, kUris[o.uri], credentials + (o.gzip ? "Accept-Encoding: gzip\r\n" : ""));
    o.refused = o.answer.error == "no answer" || o.answer.error == "no connection";
    o.out = ("status " + std::to_string(o.answer.status)).c_str();
#else
    auto r = civetstub::request(kUris[o.uri], o.arg >= 0 ? kTokens[o.arg] : nullptr, o.gzip ? "gzip" : nullptr);
    o.refused = r.refused;
    o.out = r.out;
#endif
  };
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      for (auto& o : plan[t]) {
        o.inv = sched::now();
        if (o.kind == Scrape) {
          scrape(o);
        } else {
          admin(o, owned[t]);
        }
        o.ret = sched::now();
        sched::yield();
      }
    });
  }
  sched::run(s, bodies);

  std::vector<Op*> ops;
  for (auto& o : setup) ops.push_back(&o);
  for (auto& p : plan) {
    for (auto& o : p) ops.push_back(&o);
  }
  std::vector<Op> last;
  if (!destroys) {
    for (size_t u = 0; u < uris; ++u) {
      int latest = -1;
      uint64_t at = 0;
      for (auto* o : ops) {
        if (o->kind == SetAuth && o->uri == static_cast<int>(u) && o->inv >= at) latest = o->arg, at = o->inv;
      }
      Op o;
      o.uri = static_cast<int>(u);
      o.arg = latest;
      o.thread = -1;
      last.push_back(o);
    }
    for (auto& o : last) {
      o.inv = sched::now();
      scrape(o);
      o.ret = sched::now();
      ops.push_back(&o);
    }
  }
  // intervals of registrations
  std::vector<Registration> regs;
  std::vector<uint64_t> dropInv(total, ~0ull), dropRet(total, ~0ull);
  uint64_t destroyInv = ~0ull, destroyRet = ~0ull;
  std::vector<uint64_t> created(uris, ~0ull), touched(uris, ~0ull);  // first operation on a path: returned, called
  for (auto* o : ops) {
    if (o->kind == Register) {
      Registration r;
      r.thing = o->arg;
      r.uri = o->uri;
      r.addInv = o->inv;
      r.addRet = o->ret;
      regs.push_back(r);
    }
    if (o->kind == Remove) {
      for (auto& r : regs) {
        if (r.thing == o->arg && r.uri == o->uri && r.removeInv == ~0ull) r.removeInv = o->inv, r.removeRet = o->ret;
      }
    }
    if (o->kind == Drop) {
      dropInv[static_cast<size_t>(o->arg)] = o->inv;
      dropRet[static_cast<size_t>(o->arg)] = o->ret;
    }
    if (o->kind == Destroy) destroyInv = o->inv, destroyRet = o->ret;
    if (o->kind == Register || o->kind == Remove || o->kind == SetAuth) {
      auto& c = created[static_cast<size_t>(o->uri)];
      c = std::min(c, o->ret);
      auto& d = touched[static_cast<size_t>(o->uri)];
      d = std::min(d, o->inv);
    }
  }
  // a scrape in progress may keep what it collects alive
  for (size_t i = 0; i < total; ++i) {
    if (dropRet[i] == ~0ull) continue;
    for (bool again = true; again;) {
      again = false;
      for (auto* o : ops) {
        if (o->kind == Scrape && o->inv < dropRet[i] && o->ret > dropRet[i]) dropRet[i] = o->ret, again = true;
      }
    }
  }
  auto name = [&](const Op& o) {
    return "scrape of " + std::string(kUris[o.uri]) + " by thread " + std::to_string(o.thread) + " at " +
           std::to_string(o.inv) + "-" + std::to_string(o.ret);
  };
  for (auto* o : ops) {
    PBT_NOTE(s, "  " << o->inv << "-" << o->ret << " thread " << o->thread << " " << kNames[o->kind] << " " << kUris[o->uri] << " "
                     << o->arg << (o->kind == Scrape ? " -> " + std::string(o->refused ? "refused" : str(o->out).substr(0, 12)) : ""));
  }
  for (auto& c : g_log->collected) {
    PBT_NOTE(s, "  collectable " << c.id << " is collected at " << c.at << "-" << c.end << " by thread " << c.thread);
    PBT_CHECK(c.end, "a collection did not end");
    PBT_CHECK(c.end < destroyRet, "collectable " << c.id << " is collected after the exposer was destroyed");
  }
  // a stopping server cuts answers short, but not those of the endpoints
  for (auto* o : ops) {
    if (o->kind != Scrape || o->refused || destroyInv > o->ret) continue;
#ifdef REAL
    if (!o->answer.complete && o->answer.status != 200) o->refused = true;
#else
    if (str(o->out).compare(0, 12, "HTTP/1.1 200") != 0 && str(o->out).find("\r\n\r\n") == std::string::npos) o->refused = true;
#endif
  }
  // to whom a collection belongs
  std::vector<const Op*> owner(g_log->collected.size());
  for (auto* o : ops) {
    if (o->kind != Scrape) continue;
#ifdef REAL
    if (o->refused) continue;
    PBT_CHECK(o->answer.complete, name(*o) << ": " << o->answer.error);
    std::string text = o->answer.body;
    if (!o->answer.all("content-encoding").empty()) text = pullutil::metricsText(o->answer, o->gzip, name(*o));
    for (size_t i = 0; i < owner.size(); ++i) {
      const std::string mark = "# TYPE c" + std::to_string(g_log->collected[i].id) + "_" + std::to_string(i) + " ";
      if (text.find(mark) == std::string::npos) continue;
      PBT_CHECK(!owner[i], "collection " << i << " is sent twice");
      PBT_CHECK(o->inv < g_log->collected[i].at && g_log->collected[i].end < o->ret, name(*o) << " contains an old collection");
      owner[i] = o;
    }
#else
    if (o->refused) continue;
    for (size_t i = 0; i < owner.size(); ++i) {
      const auto& c = g_log->collected[i];
      if (o->thread == c.thread && o->inv < c.at && c.end < o->ret) owner[i] = o;
    }
#endif
  }
  for (size_t i = 0; i < owner.size(); ++i) {
    PBT_CHECK(owner[i], "a collection of collectable " << g_log->collected[i].id << " is not sent in any response");
  }
  for (auto& a : g_log->asked) {
    PBT_CHECK(a.end && a.end < destroyRet, "authentication " << a.version << " is asked after the exposer was destroyed");
  }
  // responses
  struct Done {
    const Op* op;
    pullutil::Own own;
    size_t bytes;
  };
  std::vector<std::vector<Done>> good(uris);
  for (auto* o : ops) {
    if (o->kind != Scrape) continue;
    if (o->refused) {
      PBT_CHECK(destroyInv < o->ret, name(*o) << " is refused");
      continue;
    }
#ifndef REAL
    o->answer = parse(str(o->out));
#endif
    const httpc::Response& r = o->answer;
    const bool ending = destroyInv < o->ret;
    PBT_CHECK(destroyRet > o->inv, name(*o) << " is answered by a destroyed exposer");
    std::vector<size_t> serials;
    for (size_t i = 0; i < g_log->collected.size(); ++i) {
      if (owner[i] == o) serials.push_back(i);
    }
    // who may have been asked
    std::vector<const Op*> current;
    bool open = true;
    for (auto* v : ops) {
      if (v->kind != SetAuth || v->uri != o->uri) continue;
      if (v->ret < o->inv) open = false;
      if (v->inv > o->ret) continue;
      bool replaced = false;
      for (auto* w : ops) {
        replaced = replaced || (w->kind == SetAuth && w->uri == o->uri && w->inv > v->ret && w->ret < o->inv);
      }
      if (!replaced) current.push_back(v);
    }
    if (r.status == 404) {
      PBT_CHECK(ending || created[static_cast<size_t>(o->uri)] > o->inv, name(*o) << " is not found");
      PBT_CHECK(serials.empty(), name(*o) << " is not found but collects");
      continue;
    }
    if (r.status == 401) {
      bool may = false;
      for (auto* v : current) may = may || v->arg != o->arg;
      PBT_CHECK(may, name(*o) << " is rejected in spite of its credentials");
      PBT_CHECK(serials.empty(), name(*o) << " is rejected but collects");
      PBT_CHECK(r.complete, name(*o) << ": " << r.error);
      const auto challenge = r.all("www-authenticate");
      bool found = false;
      for (auto* v : current) {
        found = found || (challenge.size() == 1 && v->arg != o->arg &&
                          challenge[0] == "Basic realm=\"realm" + std::to_string(v->arg) + "\"");
      }
      PBT_CHECK(found, name(*o) << ": challenge " << (challenge.empty() ? "missing" : challenge[0]));
      continue;
    }
    const std::string text = pullutil::metricsText(r, o->gzip, name(*o));
    PBT_CHECK(touched[static_cast<size_t>(o->uri)] < o->ret, name(*o) << " is answered before its path was used");
    bool allowed = open;
    for (auto* v : current) allowed = allowed || v->arg == o->arg;
    PBT_CHECK(allowed, name(*o) << " is answered without valid credentials");
    std::vector<std::string> blocks;
    std::map<int, int> count;
    for (size_t k : serials) {
      const auto& c = g_log->collected[k];
      blocks.push_back(TextSerializer{}.Serialize(content(c.id, k)));
      count[c.id]++;
    }
    const pullutil::Own mine = pullutil::consume(text, blocks, name(*o));
    good[static_cast<size_t>(o->uri)].push_back({o, mine, r.body.size()});
    for (size_t i = 0; i < total; ++i) {
      int definite = 0, possible = 0;
      for (auto& g : regs) {
        if (g.thing != static_cast<int>(i) || g.uri != o->uri) continue;
        if (g.addRet < o->inv && g.removeInv > o->ret && dropInv[i] > o->ret) ++definite;
        if (g.addInv < o->ret && g.removeRet > o->inv && dropRet[i] > o->inv) ++possible;
      }
      const int n = count[static_cast<int>(i)];
      PBT_CHECK(n >= definite, name(*o) << ": collectable " << i << " is missing");
      PBT_CHECK(n <= possible, name(*o) << ": collectable " << i << " must not be included");
    }
    // a registration before that of an included one is included
    for (auto& a : regs) {
      if (a.uri != o->uri || !count[a.thing]) continue;
      int only = 0;
      for (auto& b : regs) only += b.thing == a.thing && b.uri == a.uri;
      if (only != 1) continue;
      for (auto& b : regs) {
        if (b.uri == a.uri && b.addRet < a.addInv && b.removeInv > o->ret && dropInv[static_cast<size_t>(b.thing)] > o->ret) {
          PBT_CHECK(count[b.thing], name(*o) << ": collectable " << b.thing << " is missing next to the later " << a.thing);
        }
      }
    }
  }
  // no collection starts after its collectable was removed
  for (auto* o : ops) {
    if (o->kind != Scrape || o->refused) continue;
    for (size_t i = 0; i < owner.size(); ++i) {
      if (owner[i] != o) continue;
      const auto& c = g_log->collected[i];
      bool may = false;
      for (auto& g : regs) {
        may = may || (g.thing == c.id && g.uri == o->uri && g.addInv < c.at && g.removeRet > c.end &&
                      dropRet[static_cast<size_t>(c.id)] > o->inv);
      }
      PBT_CHECK(may, "collectable " << c.id << " is called at " << c.at << "-" << c.end << " although it is not registered, by the "
                                    << name(*o));
    }
  }
  // the endpoint's own metrics
  for (auto& list : good) {
    for (auto& d : list) {
      uint64_t before = 0, during = 0;
      size_t bytesBefore = 0, bytesDuring = 0;
      for (auto& e : list) {
        if (e.op == d.op) continue;
        if (e.op->ret < d.op->inv) ++before, bytesBefore += e.bytes;
        if (e.op->inv < d.op->ret) ++during, bytesDuring += e.bytes;
      }
      PBT_CHECK(d.own.scrapes >= before && d.own.scrapes <= during,
                name(*d.op) << " reports " << d.own.scrapes << " scrapes instead of " << before << " to " << during);
      PBT_CHECK(d.own.latencies >= before && d.own.latencies <= during,
                name(*d.op) << " reports " << d.own.latencies << " latencies instead of " << before << " to " << during);
      PBT_CHECK(d.own.bytes >= static_cast<double>(bytesBefore) && d.own.bytes <= static_cast<double>(bytesDuring),
                name(*d.op) << " reports " << d.own.bytes << " bytes instead of " << bytesBefore << " to " << bytesDuring);
    }
  }
  if (destroys) {
#ifndef REAL
    PBT_CHECK(civetstub::g_context->active == 0, "requests in progress after the destructor");
#endif
    s.cls("destroyed");
  }
  if (versions) s.cls("authentication");
#ifdef REAL
  bool overlap = false;
  for (auto* a : ops) {
    for (auto* b : ops) overlap = overlap || (a->kind == Scrape && b->kind != Scrape && a->inv < b->ret && b->inv < a->ret);
  }
#else
  const bool overlap = sched::stats().switches > threads;
#endif
  if (overlap && scrapes && changes) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
