// C23: a gateway under arbitrary interleavings, with a stand-in for the easy
// interface of libcurl that records what is sent.
#include <curl/curl.h>

#include <algorithm>
#include <cstdarg>
#include <future>
#include <map>
#include <memory>
#include <set>

#include "dsched.h"
#include "pushutil.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

using namespace prometheus;
using namespace pushutil;
using pbt::Source;
using pbt::esc;

namespace {

// The records live in memory of malloc, which the race detector does not see:
// they must not order the threads.
template <class T>
struct Untracked {
  using value_type = T;
  Untracked() = default;
  template <class U>
  Untracked(const Untracked<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const Untracked&) const { return true; }
  bool operator!=(const Untracked&) const { return false; }
};
template <class T>
using Vec = std::vector<T, Untracked<T>>;
using Str = std::basic_string<char, std::char_traits<char>, Untracked<char>>;

std::string str(const Str& s) { return std::string(s.data(), s.size()); }

struct Request {
  uint64_t start, end;
  int thread;
  Str method, url, body, credentials;
  Vec<Str> headers;
  long status;  // 0: transport error
};
struct Collected {
  int id, thread;
  uint64_t at;
};
struct Log {
  Vec<Request> requests;
  Vec<Collected> collected;
  Vec<int> statuses;
  size_t performed = 0;
};
Log* g_log;

struct Easy {
  int busy = 0;
  std::string url, custom, credentials, user, password;
  enum { Get, Head, Post, Put } request = Get;
  curl_slist* headers = nullptr;
  const char* fields = nullptr;
  std::string copied;
  bool isCopied = false;
  curl_off_t size = -1;
  curl_read_callback reader = nullptr;
  void* readData = nullptr;
  long response = 0;
};

void use(Easy* e, const char* what) {
  if (e->busy) sched::report(std::string("a curl handle is used by ") + what + " during a transfer");
  sched::yield();
}

}  // namespace

extern "C" {

CURL* curl_easy_init() { return reinterpret_cast<CURL*>(new Easy); }
void curl_easy_cleanup(CURL* c) {
  if (!c) return;
  use(reinterpret_cast<Easy*>(c), "curl_easy_cleanup");
  delete reinterpret_cast<Easy*>(c);
}
void curl_easy_reset(CURL* c) {
  auto* e = reinterpret_cast<Easy*>(c);
  use(e, "curl_easy_reset");
  *e = Easy{};
}

curl_slist* curl_slist_append(curl_slist* l, const char* text) {
  auto* n = new curl_slist;
  n->data = static_cast<char*>(operator new(strlen(text) + 1));
  memcpy(n->data, text, strlen(text) + 1);
  n->next = nullptr;
  sched::yield();
  if (!l) return n;
  curl_slist* last = l;
  while (last->next) last = last->next;
  sched::yield();
  last->next = n;
  return l;
}
void curl_slist_free_all(curl_slist* l) {
  while (l) {
    curl_slist* n = l->next;
    operator delete(l->data);
    delete l;
    l = n;
  }
}

CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto* e = reinterpret_cast<Easy*>(c);
  use(e, "curl_easy_setopt");
  va_list v;
  va_start(v, o);
  auto text = [&v](std::string* to) {
    const char* p = va_arg(v, const char*);
    *to = p ? p : "";
  };
  switch (o) {
    case CURLOPT_URL: text(&e->url); break;
    case CURLOPT_CUSTOMREQUEST: text(&e->custom); break;
    case CURLOPT_USERPWD: text(&e->credentials); break;
    case CURLOPT_USERNAME:
      text(&e->user);
      e->credentials = e->user + ":" + e->password;
      break;
    case CURLOPT_PASSWORD:
      text(&e->password);
      e->credentials = e->user + ":" + e->password;
      break;
    case CURLOPT_HTTPHEADER: e->headers = va_arg(v, curl_slist*); break;
    case CURLOPT_POST: e->request = va_arg(v, long) ? Easy::Post : Easy::Get; break;
    case CURLOPT_HTTPGET:
      if (va_arg(v, long)) e->request = Easy::Get;
      break;
    case CURLOPT_NOBODY:
      if (va_arg(v, long)) {
        e->request = Easy::Head;
      } else if (e->request == Easy::Head) {
        e->request = Easy::Get;
      }
      break;
    case CURLOPT_UPLOAD:
      if (va_arg(v, long)) {
        e->request = Easy::Put;
      } else {
        e->request = Easy::Get;
      }
      break;
    case CURLOPT_READFUNCTION: e->reader = va_arg(v, curl_read_callback); break;
    case CURLOPT_READDATA: e->readData = va_arg(v, void*); break;
    case CURLOPT_POSTFIELDSIZE: e->size = va_arg(v, long); break;
    case CURLOPT_POSTFIELDSIZE_LARGE:
    case CURLOPT_INFILESIZE_LARGE: e->size = va_arg(v, curl_off_t); break;
    case CURLOPT_INFILESIZE: e->size = va_arg(v, long); break;
    case CURLOPT_POSTFIELDS:
      e->fields = va_arg(v, const char*);
      e->isCopied = false;
      e->request = Easy::Post;
      break;
    case CURLOPT_COPYPOSTFIELDS: {
      const char* p = va_arg(v, const char*);
      e->isCopied = p != nullptr;
      e->copied = !p ? "" : e->size < 0 ? std::string(p) : std::string(p, static_cast<size_t>(e->size));
      e->fields = nullptr;
      e->request = Easy::Post;
      break;
    }
    default: break;
  }
  va_end(v);
  return CURLE_OK;
}

CURLcode curl_easy_perform(CURL* c) {
  auto* e = reinterpret_cast<Easy*>(c);
  use(e, "curl_easy_perform");
  e->busy = 1;
  Request r;
  r.start = sched::now();
  r.thread = sched::self();
  r.url = e->url.c_str();
  r.credentials = e->credentials.c_str();
  static const char* names[] = {"GET", "HEAD", "POST", "PUT"};
  r.method = e->custom.empty() ? names[e->request] : e->custom.c_str();
  sched::yield();
  for (curl_slist* h = e->headers; h; h = h->next) {
    r.headers.push_back(h->data);
    sched::yield();
  }
  const bool sends = e->request == Easy::Post || e->request == Easy::Put;
  if (sends && e->isCopied) {
    r.body = e->copied.c_str();
  } else if (sends && e->fields) {
    const size_t n = e->size < 0 ? strlen(e->fields) : static_cast<size_t>(e->size);
    for (size_t i = 0; i < n; ++i) {
      r.body += e->fields[i];
      if (i == n / 2) sched::yield();
    }
  } else if (sends && e->reader) {
    char buffer[64];
    while (size_t n = e->reader(buffer, 1, sizeof buffer, e->readData)) {
      if (n > sizeof buffer) break;
      r.body.append(buffer, n);
      sched::yield();
    }
  }
  sched::yield();
  const int status = g_log->statuses[g_log->performed++ % g_log->statuses.size()];
  r.status = status;
  e->response = status;
  e->busy = 0;
  r.end = sched::now();
  g_log->requests.push_back(r);
  sched::yield();
  return status ? CURLE_OK : CURLE_COULDNT_CONNECT;
}

CURL* curl_easy_duphandle(CURL* c) {
  auto* e = reinterpret_cast<Easy*>(c);
  use(e, "curl_easy_duphandle");
  return reinterpret_cast<CURL*>(new Easy(*e));
}
char* curl_easy_escape(CURL*, const char* s, int size) {
  const size_t n = size ? static_cast<size_t>(size) : strlen(s);
  char* r = static_cast<char*>(malloc(3 * n + 1));
  char* p = r;
  for (size_t i = 0; i < n; ++i) {
    const auto c = static_cast<unsigned char>(s[i]);
    if (isalnum(c) || c == '-' || c == '.' || c == '_' || c == '~') {
      *p++ = s[i];
    } else {
      snprintf(p, 4, "%%%02X", static_cast<unsigned>(c));
      p += 3;
    }
  }
  *p = 0;
  return r;
}
void curl_free(void* p) { free(p); }
const char* curl_easy_strerror(CURLcode) { return "an error"; }
char* curl_version() {
  static char v[] = "libcurl/8";
  return v;
}
CURLcode curl_easy_pause(CURL*, int) { return CURLE_OK; }

CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  auto* e = reinterpret_cast<Easy*>(c);
  use(e, "curl_easy_getinfo");
  va_list v;
  va_start(v, i);
  CURLcode r = CURLE_UNKNOWN_OPTION;
  if (i == CURLINFO_RESPONSE_CODE) {
    *va_arg(v, long*) = e->response;
    r = CURLE_OK;
  }
  va_end(v);
  return r;
}

}  // extern "C"

namespace {

std::vector<MetricFamily> content(int id, size_t serial) {
  std::vector<MetricFamily> r(2);
  r[0].name = "c" + std::to_string(id) + "_" + std::to_string(serial);
  r[1].name = "end" + std::to_string(id) + "_" + std::to_string(serial);
  for (auto& f : r) {
    f.type = MetricType::Gauge;
    f.metric.resize(1);
  }
  return r;
}

struct Thing : Collectable {
  explicit Thing(int i) : id(i) {}
  int id;
  std::vector<MetricFamily> Collect() const override {
    const size_t serial = g_log->collected.size();
    g_log->collected.push_back({id, sched::self(), sched::now()});
    sched::yield();
    return content(id, serial);
  }
};

enum Kind { Push, PushAdd, Delete, DeleteInstance, Register, Drop, Header };
const char* kNames[] = {"push", "push-add", "delete", "delete of the instance", "register", "drop", "header"};
const char* kMethods[] = {"POST", "PUT", "DELETE", "DELETE"};

struct Op {
  Kind kind;
  bool async = false, late = false;  // late: the future is awaited at the end
  int arg = 0;
  int thread = 0;
  uint64_t inv = 0, ret = 0, ready = 0;
  int result = 0;
};

// Gateways of different threads do not share anything: what a gateway sends
// and returns is what it sends and returns alone.
struct Still : Collectable {
  std::vector<MetricFamily> families;
  std::vector<MetricFamily> Collect() const override {
    sched::yield();
    return families;
  }
};

struct Script {
  std::string job;
  Labels labels, extra;
  int form = 0;
  size_t collectables = 1;
  std::vector<std::pair<int, bool>> ops;
};

// results and, for requests made, whatever the log gets under the job
std::vector<int> runScript(const Script& p) {
  std::vector<int> results;
  std::unique_ptr<Gateway> g;
  switch (p.form) {
    case 0: g.reset(new Gateway("h", "1", p.job, p.labels, "user" + p.job, "secret")); break;
    case 1: g.reset(new Gateway("http://h", "1", [](CURL*) {}, p.job, p.labels)); break;
    default: g.reset(new Gateway("http://h:1", std::function<void(CURL*)>{}, p.job, p.labels)); break;
  }
  std::vector<std::shared_ptr<Still>> things;
  for (size_t i = 0; i < p.collectables; ++i) {
    things.push_back(std::make_shared<Still>());
    things.back()->families.resize(1);
    things.back()->families[0].name = "of_" + p.job + "_" + std::to_string(i);
    things.back()->families[0].type = MetricType::Gauge;
    things.back()->families[0].metric.resize(1 + i);
    sched::yield();
    g->RegisterCollectable(things.back(), i % 2 ? &p.extra : nullptr);
  }
  for (auto& o : p.ops) {
    sched::yield();
    switch (o.first) {
      case 0: results.push_back(o.second ? g->AsyncPush().get() : g->Push()); break;
      case 1: results.push_back(o.second ? g->AsyncPushAdd().get() : g->PushAdd()); break;
      case 2: results.push_back(o.second ? g->AsyncDelete().get() : g->Delete()); break;
      case 3: results.push_back(o.second ? g->AsyncDeleteForInstance().get() : g->DeleteForInstance()); break;
      default: results.push_back(g->AddHttpHeader("X" + p.job + ": " + std::to_string(results.size()))); break;
    }
  }
  return results;
}

std::vector<std::string> sentFor(const std::string& job, bool ordered) {
  std::vector<std::string> r;
  const std::string part = "/metrics/job/" + job;
  for (auto& q : g_log->requests) {
    const std::string url = str(q.url);
    const size_t at = url.find(part);
    if (at == std::string::npos) continue;
    std::string t = str(q.method) + " " + url + " " + str(q.credentials) + " " + str(q.body);
    for (auto& h : q.headers) t += "|" + str(h);
    r.push_back(t);
  }
  if (!ordered) std::sort(r.begin(), r.end());
  return r;
}

void separateCase(Source& s) {
  s.cls("own gateways");
  g_log->statuses.push_back(200);
  const size_t threads = 2 + s.draw(2);
  std::vector<Script> scripts(threads);
  std::vector<std::vector<int>> alone(threads), together(threads);
  std::vector<std::vector<std::string>> sentAlone(threads);
  std::vector<bool> ordered(threads, true);
  const bool after = s.coin();  // the library is not used before the threads start
  for (size_t t = 0; t < threads; ++t) {
    Script& p = scripts[t];
    p.job = std::string(1, static_cast<char>('p' + t)) + (s.coin() ? std::string(1 + s.draw(40), 'x') : "");
    if (s.coin()) p.labels["instance"] = s.coin() ? "a/b" + std::to_string(t) : "i" + std::to_string(t);
    p.extra["n"] = s.coin() ? "" : std::to_string(t);
    p.form = static_cast<int>(s.draw(3));
    p.collectables = 1 + s.draw(2);
    const size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; ++i) {
      p.ops.push_back({static_cast<int>(s.draw(5)), s.chance(1, 4)});
      if (p.ops.back().second && p.collectables > 1) ordered[t] = false;
    }
    if (after) continue;
    alone[t] = runScript(p);
    sentAlone[t] = sentFor(p.job, ordered[t]);
    for (auto& r : sentAlone[t]) PBT_NOTE(s, "thread " << t << " alone: " << esc(r));
  }
  g_log->requests.clear();
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] { together[t] = runScript(scripts[t]); });
  }
  sched::run(s, bodies);
  size_t total = 0;
  std::vector<std::vector<std::string>> sentTogether(threads);
  for (size_t t = 0; t < threads; ++t) sentTogether[t] = sentFor(scripts[t].job, ordered[t]);
  const size_t requests = g_log->requests.size();
  for (size_t t = 0; after && t < threads; ++t) {
    g_log->requests.clear();
    alone[t] = runScript(scripts[t]);
    sentAlone[t] = sentFor(scripts[t].job, ordered[t]);
  }
  for (size_t t = 0; t < threads; ++t) {
    const auto& sent = sentTogether[t];
    total += sent.size();
    std::string got;
    for (auto& r : sent) got += "\n" + esc(r);
    PBT_CHECK(sent == sentAlone[t], "the gateway of thread " << t << " sends something else than it does alone:" << got);
    PBT_CHECK(together[t] == alone[t], "the gateway of thread " << t << " returns something else than it does alone");
  }
  PBT_CHECK(total == requests, "requests of no gateway");
  if (sched::stats().switches > threads) s.nontrivial();
}

}  // namespace

namespace pbt {

void pbt_init() {
  curl_global_init(CURL_GLOBAL_ALL);
  g_log = static_cast<Log*>(malloc(sizeof(Log)));
}

void pbt_case(Source& s) {
  new (g_log) Log;
  struct Clear {
    ~Clear() { g_log->~Log(); }
  } clear;
  if (s.chance(1, 10)) {
    separateCase(s);
    return;
  }
  const bool faults = s.chance(1, 3);
  for (int i = 0; i < 32; ++i) {
    static const int bad[] = {500, 404, 0, 503};
    g_log->statuses.push_back(faults && s.chance(1, 5) ? bad[s.draw(4)] : s.chance(1, 5) ? 202 : 200);
  }
  const bool credentials = s.coin();
  std::unique_ptr<Gateway> g;
  const std::string host = "http://h:1";
  const Labels labels{{"instance", "i"}};
  if (credentials) {
    g.reset(new Gateway("http://h", "1", "j", labels, "me", "secret"));
  } else {
    g.reset(new Gateway(host, [](CURL*) {}, "j", labels));
  }
  const size_t threads = 2 + s.draw(3);
  std::vector<std::shared_ptr<Thing>> things;
  std::vector<Op> registrations;  // by id
  const size_t initial = s.draw(3);
  auto add = [&](const std::shared_ptr<Thing>& c) {
    const Labels extra{{"n", std::to_string(c->id)}};
    g->RegisterCollectable(c, &extra);
  };
  for (size_t i = 0; i < initial; ++i) {
    things.push_back(std::make_shared<Thing>(static_cast<int>(i)));
    add(things.back());
  }
  int headers = 0;
  size_t children = 0;
  std::vector<std::vector<Op>> plan(threads);
  size_t writes = 0;
  for (size_t t = 0; t < threads; ++t) {
    const size_t n = 1 + s.draw(4);
    std::vector<int> own;
    if (t < initial) own.push_back(static_cast<int>(t));
    for (size_t i = 0; i < n; ++i) {
      Op o;
      o.thread = static_cast<int>(t);
      o.kind = static_cast<Kind>(s.weighted({5, 4, 1, 2, 3, 2, 2}));
      if (o.kind <= DeleteInstance) {
        o.async = s.chance(1, 3);
        if (children + 6 > 30) o.async = false;
        if (o.async) children += o.kind <= PushAdd ? 6 : 1;
        if (o.async) o.late = s.coin();
        ++writes;
      } else if (o.kind == Register) {
        if (things.size() >= 5) continue;
        o.arg = static_cast<int>(things.size());
        things.push_back(std::make_shared<Thing>(o.arg));
        own.push_back(o.arg);
      } else if (o.kind == Drop) {
        if (own.empty()) continue;
        const size_t k = s.draw(own.size());
        o.arg = own[k];
        own.erase(own.begin() + static_cast<long>(k));
      } else {
        o.arg = headers++;
      }
      PBT_NOTE(s, "thread " << t << " " << (o.async ? "async " : "") << kNames[o.kind] << " " << o.arg);
      plan[t].push_back(o);
    }
  }
  std::vector<std::function<void()>> bodies;
  std::vector<std::vector<std::shared_ptr<Thing>>> owned(threads, std::vector<std::shared_ptr<Thing>>(8));
  for (auto& p : plan) {
    for (auto& o : p) {
      if (o.kind == Register || o.kind == Drop) {
        owned[static_cast<size_t>(o.thread)][static_cast<size_t>(o.arg)] = things[static_cast<size_t>(o.arg)];
      }
    }
  }
  std::vector<std::shared_ptr<Thing>> rest;  // initial ones nobody drops
  for (auto& c : things) {
    bool has = false;
    for (auto& w : owned) has = has || w[static_cast<size_t>(c->id)];
    if (!has) rest.push_back(c);
  }
  const size_t total = things.size();
  things.clear();
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      std::vector<std::pair<std::future<int>, size_t>> pending;
      for (size_t i = 0; i < plan[t].size(); ++i) {
        Op& o = plan[t][i];
        auto& mine = owned[t][static_cast<size_t>(o.kind == Register || o.kind == Drop ? o.arg : 0)];
        o.inv = sched::now();
        std::future<int> f;
        switch (o.kind) {
          case Push:
            if (o.async) f = g->AsyncPush(); else o.result = g->Push();
            break;
          case PushAdd:
            if (o.async) f = g->AsyncPushAdd(); else o.result = g->PushAdd();
            break;
          case Delete:
            if (o.async) f = g->AsyncDelete(); else o.result = g->Delete();
            break;
          case DeleteInstance:
            if (o.async) f = g->AsyncDeleteForInstance(); else o.result = g->DeleteForInstance();
            break;
          case Register: add(mine); break;
          case Drop: mine.reset(); break;
          case Header:
            if (!g->AddHttpHeader("X" + std::to_string(o.arg) + ": v")) sched::report("a header is refused");
            break;
        }
        o.ret = sched::now();
        // who polls such a future waits for ever
        if (o.async && f.wait_for(std::chrono::seconds(0)) == std::future_status::deferred) sched::report("a future that is deferred");
        if (o.async && !o.late) {
          o.result = f.get();
          o.ready = sched::now();
        } else if (o.async) {
          pending.push_back({std::move(f), i});
        } else {
          o.ready = o.ret;
        }
        sched::yield();
      }
      for (auto& p : pending) {
        plan[t][p.second].result = p.first.get();
        plan[t][p.second].ready = sched::now();
      }
    });
  }
  sched::run(s, bodies);

  std::vector<const Op*> ops;
  for (auto& p : plan) {
    for (auto& o : p) ops.push_back(&o);
  }
  // life of every collectable
  struct Life {
    uint64_t addInv = 0, addRet = 0, dropInv = ~0ull, dropRet = ~0ull;
  };
  std::vector<Life> life(total);
  for (size_t i = initial; i < total; ++i) life[i].addInv = life[i].addRet = ~0ull;
  std::vector<const Op*> headerOps(static_cast<size_t>(headers));
  for (auto* o : ops) {
    if (o->kind == Register) {
      life[static_cast<size_t>(o->arg)].addInv = o->inv;
      life[static_cast<size_t>(o->arg)].addRet = o->ret;
    }
    if (o->kind == Drop) {
      life[static_cast<size_t>(o->arg)].dropInv = o->inv;
      life[static_cast<size_t>(o->arg)].dropRet = o->ret;
    }
    if (o->kind == Header) headerOps[static_cast<size_t>(o->arg)] = o;
  }
  // a push in progress may keep what it collects alive
  for (auto& l : life) {
    if (l.dropRet == ~0ull) continue;
    for (bool again = true; again;) {
      again = false;
      for (auto* o : ops) {
        if (o->kind <= PushAdd && o->inv < l.dropRet && o->ready > l.dropRet) l.dropRet = o->ready, again = true;
      }
    }
  }
  auto show = [&](const Request& r) {
    return str(r.method) + " " + str(r.url) + " " + esc(str(r.body)) + " at " + std::to_string(r.start) + "-" +
           std::to_string(r.end);
  };
  auto name = [&](const Op& o) {
    return std::string(o.async ? "asynchronous " : "") + kNames[o.kind] + " of thread " + std::to_string(o.thread) +
           " at " + std::to_string(o.inv) + "-" + std::to_string(o.ret);
  };
  for (auto& r : g_log->requests) PBT_NOTE(s, "  " << show(r) << " -> " << r.status);

  // every request of a push carries the content of one collection
  std::vector<const Request*> bySerial(g_log->collected.size());
  std::map<std::string, std::multiset<long>> deletes;
  auto resultOf = [](const Request& r) { return r.status ? r.status : -static_cast<long>(CURLE_COULDNT_CONNECT); };
  for (auto& r : g_log->requests) {
    const std::string method = str(r.method), body = str(r.body), url = str(r.url);
    PBT_CHECK(url.compare(0, host.size(), host) == 0, "request goes elsewhere: " << show(r));
    const Key key = groupingKey(url.substr(host.size()), "");
    PBT_CHECK(str(r.credentials) == (credentials ? "me:secret" : ""), "credentials of " << show(r));
    if (method == "DELETE") {
      PBT_CHECK(body.empty(), "delete with a body: " << show(r));
      deletes[pushutil::show(key)].insert(resultOf(r));
      continue;
    }
    size_t serial = bySerial.size();
    int id = -1;
    for (size_t i = 0; i < bySerial.size(); ++i) {
      if (body == TextSerializer{}.Serialize(content(g_log->collected[i].id, i))) {
        serial = i;
        id = g_log->collected[i].id;
      }
    }
    PBT_CHECK(id >= 0, "body of no collection in " << show(r));
    PBT_CHECK(!bySerial[serial], "one collection is sent twice: " << show(r));
    bySerial[serial] = &r;
    const Key want{{"job", "j"}, {"instance", "i"}, {"n", std::to_string(id)}};
    PBT_CHECK(key == want, "path of " << pushutil::show(key) << " with the body of collectable " << id << ": " << show(r));
    PBT_CHECK(r.start > g_log->collected[serial].at, "sent before collected");
  }
  // deletes
  std::map<std::string, std::multiset<long>> wanted;
  for (auto* o : ops) {
    Key k{{"job", "j"}};
    if (o->kind == DeleteInstance) k.push_back({"instance", "i"});
    if (o->kind == Delete || o->kind == DeleteInstance) wanted[pushutil::show(k)].insert(o->result);
  }
  for (auto& d : deletes) {
    if (d.second != wanted[d.first]) {
      std::string e = d.first + ": answers";
      for (auto v : d.second) e += " " + std::to_string(v);
      e += ", results";
      for (auto v : wanted[d.first]) e += " " + std::to_string(v);
      pbt::fail("deletes of " + e);
    }
    wanted.erase(d.first);
  }
  PBT_CHECK(wanted.empty(), "no request for delete of " << wanted.begin()->first);

  // which operation a collection belongs to
  auto checkHeaders = [&](const Request& r, uint64_t inv) {
    std::map<std::string, int> seen;
    int types = 0;
    for (auto& h : r.headers) {
      const std::string x = str(h);
      if (x.compare(0, 13, "Content-Type:") == 0) {
        ++types;
        continue;
      }
      seen[x]++;
    }
    PBT_CHECK(types == 1, types << " content types in " << show(r));
    for (auto* h : headerOps) {
      const std::string n = "X" + std::to_string(h->arg) + ": v";
      const int count = seen[n];
      seen.erase(n);
      PBT_CHECK(count <= 1, "header " << n << " is sent " << count << " times in " << show(r));
      PBT_CHECK(count == 1 || h->ret > inv, "header " << n << " is missing in " << show(r));
      PBT_CHECK(count == 0 || h->inv < r.end, "header " << n << " is sent too early");
    }
    PBT_CHECK(seen.empty(), "strange header " << esc(seen.begin()->first) << " in " << show(r));
  };
  std::vector<std::vector<size_t>> serials(ops.size());
  for (size_t i = 0; i < bySerial.size(); ++i) {
    const auto& c = g_log->collected[i];
    size_t owner = ops.size();
    for (size_t k = 0; k < ops.size(); ++k) {
      if (ops[k]->kind <= PushAdd && ops[k]->thread == c.thread && ops[k]->inv < c.at && c.at < ops[k]->ret) owner = k;
    }
    PBT_CHECK(owner < ops.size(), "a collection outside of a push");
    serials[owner].push_back(i);
  }
  size_t minimal = ~0ull;
  for (auto* o : ops) minimal = std::min<size_t>(minimal, o->inv);
  for (auto& r : g_log->requests) {
    if (str(r.method) == "DELETE") checkHeaders(r, minimal);
  }
  std::vector<std::set<int>> sets(ops.size());
  for (size_t k = 0; k < ops.size(); ++k) {
    const Op& o = *ops[k];
    if (o.kind > PushAdd) continue;
    std::set<long> failing;
    std::vector<const Request*> sent;
    bool unsent = false;
    for (size_t i : serials[k]) {
      const int id = g_log->collected[i].id;
      PBT_CHECK(sets[k].insert(id).second, "collectable " << id << " is collected twice by the " << name(o));
      const Request* r = bySerial[i];
      if (!r) {
        unsent = true;
        continue;
      }
      PBT_CHECK(str(r->method) == kMethods[o.kind], "method of the " << name(o) << ": " << show(*r));
      PBT_CHECK(r->start > o.inv && r->end < o.ready, "request outside of the " << name(o) << ": " << show(*r));
      checkHeaders(*r, o.inv);
      if (resultOf(*r) < 100 || resultOf(*r) >= 400) failing.insert(resultOf(*r));
      sent.push_back(r);
    }
    if (!o.async) {
      for (size_t i = 1; i < sent.size(); ++i) {
        PBT_CHECK(sent[i - 1]->end < sent[i]->start, "requests of the " << name(o) << " out of order");
        PBT_CHECK(resultOf(*sent[i - 1]) >= 100 && resultOf(*sent[i - 1]) < 400, "the " << name(o) << " goes on after a failure");
      }
      for (size_t a = 0; a < serials[k].size(); ++a) {
        for (size_t b = a + 1; b < serials[k].size(); ++b) {
          const auto& la = life[static_cast<size_t>(g_log->collected[serials[k][a]].id)];
          const auto& lb = life[static_cast<size_t>(g_log->collected[serials[k][b]].id)];
          PBT_CHECK(lb.addRet >= la.addInv || (lb.addRet == 0 && la.addRet == 0),
                    "the " << name(o) << " does not keep the order of registration");
        }
      }
    }
    const bool stopped = !o.async && !failing.empty();
    PBT_CHECK(!unsent || stopped, "a collection of the " << name(o) << " is not sent");
    if (failing.empty()) {
      PBT_CHECK(o.result == 200, "the " << name(o) << " returns " << o.result << " although every request succeeded");
    } else {
      PBT_CHECK(failing.count(o.result), "the " << name(o) << " returns " << o.result << " although requests failed, e.g. with "
                                                << *failing.begin());
    }
    for (size_t i = 0; i < total; ++i) {
      const auto& l = life[i];
      const bool in = sets[k].count(static_cast<int>(i)) > 0;
      if (!in && !stopped) {
        PBT_CHECK(!(l.addRet < o.inv && l.dropInv > o.ret), "collectable " << i << " is missing in the " << name(o));
      }
      PBT_CHECK(!in || (l.addInv < o.ret && l.dropRet > o.inv), "collectable " << i << " must not be in the " << name(o));
    }
  }
  if (sched::stats().switches > threads && writes > 1) s.nontrivial();
  if (children) s.cls("asynchronous");
  if (faults) s.cls("faults");
  if (headers) s.cls("header");
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
