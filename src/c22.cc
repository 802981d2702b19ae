// C22: results of pushes and deletes under faults of the server.
#include <curl/curl.h>
#include <fcntl.h>
#include <signal.h>

#include <algorithm>
#include <future>
#include <memory>
#include <set>

#include "pushutil.h"

using namespace prometheus;
using namespace pushutil;
using httpd::Act;
using httpd::Behaviour;
using pbt::Source;

namespace {

const int kGood[] = {200, 202, 201, 204, 203, 206, 226, 299};
const int kBad[] = {400, 500, 401, 403, 404, 405, 406, 409, 410, 413, 418, 422, 429, 431, 451, 499,
                    501, 502, 503, 504, 505, 507, 511, 599, 600, 999};
const char* kActs[] = {"answer", "answer and close", "answer and hang up", "drop", "reset",
                       "truncate", "half a status line", "garbage", "stall", "reset in the body", "bad chunk"};

int good(Source& s) { return kGood[s.draw(sizeof kGood / sizeof *kGood)]; }
int bad(Source& s) { return kBad[s.draw(sizeof kBad / sizeof *kBad)]; }

bool isGood(const Behaviour& b) {
  return (b.act == Act::Status || b.act == Act::StatusClose || b.act == Act::StatusHangup) && b.status < 300;
}

// may `result` stem from this failing behaviour
bool explains(const Behaviour& b, int result) {
  if (b.act == Act::Status || b.act == Act::StatusClose || b.act == Act::StatusHangup) return result == b.status;
  if ((b.act == Act::Truncate || b.act == Act::ResetBody || b.act == Act::BadChunk) && b.status >= 400 && result == b.status) return true;
  return result < 0;
}

std::string show(const Behaviour& b) {
  std::string r = kActs[static_cast<int>(b.act)];
  if (b.act <= Act::StatusHangup || b.act == Act::Truncate || b.act == Act::HalfHead || b.act == Act::ResetBody ||
      b.act == Act::BadChunk) {
    r += " " + std::to_string(b.status);
  }
  if (b.early) r += " after " + std::to_string(b.early);
  if (b.body) r += " with " + std::to_string(b.body) + " bytes" + (b.chunked ? " in chunks" : "");
  return r;
}

// libcurl prints the bodies of answers
struct Hush {
  Hush() {
    fflush(stdout);
    saved = dup(1);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    close(null);
  }
  void end() {
    if (saved < 0) return;
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    saved = -1;
  }
  ~Hush() { end(); }
  int saved;
};

struct Op {
  bool async;
  int kind;  // push, push-add, delete, delete of the instance
};

}  // namespace

namespace pbt {

static httpd::Server* server;
static int closed;

void pbt_init() {
  signal(SIGPIPE, SIG_IGN);  // as in any server process
  curl_global_init(CURL_GLOBAL_ALL);
  server = new httpd::Server;
  // a port that refuses connections
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t n = sizeof a;
  if (bind(fd, reinterpret_cast<sockaddr*>(&a), n) || getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) _exit(98);
  closed = ntohs(a.sin_port);
}

void pbt_case(Source& s) {
  fillStdin();
  // 0: connections are kept, 1: every request has its own connection and any
  // fault may happen, 2: a request stalls, 3: nobody listens
  const int mode = static_cast<int>(s.weighted({40, 120, 1, 8}));
  const std::string port = std::to_string(mode == 3 ? closed : server->port());
  std::unique_ptr<Gateway> g;
  const Labels labels{{"instance", "i"}};
  if (mode == 2) {
    s.cls("stall");
    if (s.coin()) {
      g.reset(new Gateway("127.0.0.1", port, "j", labels, "", "", std::chrono::seconds(1)));
    } else {
      g.reset(new Gateway("http://127.0.0.1:" + port,
                          [](CURL* c) { curl_easy_setopt(c, CURLOPT_TIMEOUT_MS, 1000L); }, "j", labels));
    }
  } else {
    switch (s.draw(3)) {
      case 0: g.reset(new Gateway("127.0.0.1", port, "j", labels)); break;
      case 1: g.reset(new Gateway("127.0.0.1", port, "j", labels, "me", "secret", std::chrono::seconds(100))); break;
      default: g.reset(new Gateway("http://127.0.0.1:" + port, [](CURL*) {}, "j", labels)); break;
    }
  }
  if (mode == 3) s.cls("refused");

  const size_t n = s.draw(6);
  std::vector<std::shared_ptr<Fixed>> things;
  std::vector<std::string> bodies;
  for (size_t i = 0; i < n; ++i) {
    auto c = std::make_shared<Fixed>();
    MetricFamily m;
    m.name = "content";
    m.type = MetricType::Gauge;
    m.metric.resize(1);
    m.metric[0].gauge.value = static_cast<double>(i);
    if (s.chance(4, 5)) c->families = {m};
    g->RegisterCollectable(c);
    if (s.chance(1, 6)) continue;  // already gone
    things.push_back(c);
    bodies.push_back(bodyOf(*c));
  }
  PBT_NOTE(s, "mode " << mode << ", " << things.size() << " collectables");

  bool failed = false, hung = false;
  int stalls = mode == 2 ? 1 : 0;
  const size_t rounds = 1 + s.draw(mode == 2 ? 2 : 5);
  for (size_t round = 0; round < rounds; ++round) {
    Op op{s.coin(), static_cast<int>(s.weighted({4, 4, 1, 1}))};
    const bool isPush = op.kind < 2;
    const size_t count = isPush ? things.size() : 1;
    std::vector<Behaviour> script(count);
    // mostly successes with some failures
    const bool some = s.chance(3, 4);
    for (auto& b : script) {
      b.act = mode == 0 ? (s.chance(1, 4) ? Act::StatusHangup : Act::Status) : Act::StatusClose;
      b.status = good(s);
      if (s.chance(1, 4)) {
        b.body = 1 + s.draw(s.chance(1, 6) ? 70000 : 100);
        b.chunked = s.coin();
      }
      if (s.chance(1, 12)) b.early = s.coin() ? 103 : 102;
      if (!some || !s.chance(1, 3)) continue;
      if (mode == 1 && s.coin()) {
        static const Act faults[] = {Act::Drop,    Act::Reset,     Act::Truncate, Act::HalfHead,
                                     Act::Garbage, Act::ResetBody, Act::BadChunk};
        b.act = faults[s.draw(7)];
        b.status = s.coin() ? bad(s) : good(s);
        if ((b.act == Act::Truncate || b.act == Act::ResetBody || b.act == Act::BadChunk) && b.status == 204) b.status = 200;  // 204 has no body to truncate
      } else {
        b.status = bad(s);
      }
    }
    if (stalls > 0 && count > 0) {
      script[s.draw(count)].act = Act::Stall;
      --stalls;
    }
    static const char* names[] = {"push", "push-add", "delete", "delete of the instance"};
    const std::string what = std::string(op.async ? "asynchronous " : "") + names[op.kind];
    PBT_NOTE(s, what);
    for (auto& b : script) PBT_NOTE(s, "  " << show(b));
    server->script(script, {Act::StatusClose, 599});

    int result = 0;
    Hush hush;
    if (op.async) {
      std::future<int> f;
      switch (op.kind) {
        case 0: f = g->AsyncPush(); break;
        case 1: f = g->AsyncPushAdd(); break;
        case 2: f = g->AsyncDelete(); break;
        default: f = g->AsyncDeleteForInstance(); break;
      }
      PBT_CHECK(f.wait_for(std::chrono::seconds(40)) == std::future_status::ready, "a future does not become ready");
      result = f.get();
    } else {
      switch (op.kind) {
        case 0: result = g->Push(); break;
        case 1: result = g->PushAdd(); break;
        case 2: result = g->Delete(); break;
        default: result = g->DeleteForInstance(); break;
      }
    }
    hush.end();
    PBT_NOTE(s, "  -> " << result);

    const auto got = server->take();
    if (mode == 3) {
      PBT_CHECK(count == 0 ? result == 200 : result < 0, what << " without a server returns " << result);
      if (count) failed = true;
      continue;
    }
    size_t sent = count;
    std::vector<Behaviour> failing;
    for (size_t i = 0; i < count; ++i) {
      if (isGood(script[i])) {
        hung = hung || script[i].act == Act::StatusHangup;
        continue;
      }
      failing.push_back(script[i]);
      if (!op.async && isPush) {
        sent = i + 1;
        break;
      }
    }
    PBT_CHECK(got.size() == sent, what << " sends " << got.size() << " requests instead of " << sent);
    std::multiset<std::string> want, have;
    for (size_t i = 0; i < sent; ++i) {
      if (!isPush) break;
      if (!op.async) {
        PBT_CHECK(got[i].body == bodies[i], "request " << i << " of the " << what << " has body " << esc(got[i].body)
                                                       << " instead of " << esc(bodies[i]));
      }
      want.insert(bodies[i]);
      have.insert(got[i].body);
    }
    PBT_CHECK(want == have, what << " sends other bodies than those of the collectables");
    if (failing.empty()) {
      if (isPush) {
        PBT_CHECK(result == 200, what << " returns " << result << " although every request succeeded");
      } else {
        PBT_CHECK(result == script[0].status, what << " returns " << result << " instead of " << script[0].status);
      }
    } else {
      failed = true;
      bool ok = false;
      std::string all;
      for (auto& b : failing) {
        ok = ok || explains(b, result);
        all += " [" + show(b) + "]";
      }
      PBT_CHECK(ok, what << " returns " << result << " although these requests failed:" << all);
      s.cls(failing.size() > 1 ? "several failures" : "one failure");
      for (auto& b : failing) {
        if (b.act > Act::StatusHangup) s.cls(kActs[static_cast<int>(b.act)]);
      }
    }
  }
  if (failed) s.nontrivial();
  if (hung) s.cls("hang up");
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
