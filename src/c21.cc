// C21: the requests of histories of pushes and deletes.
#include <curl/curl.h>

#include <algorithm>
#include <future>
#include <memory>

#include "pushutil.h"

using namespace prometheus;
using namespace pushutil;
using pbt::Source;

namespace {

struct Want {
  std::string method;
  Key key;
  std::string body;
  bool push;
};

std::string show(const Want& w) {
  return w.method + " " + pushutil::show(w.key) + "with " + std::to_string(w.body.size()) + " bytes";
}

std::string encode64(const std::string& in) {
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < in.size(); i += 3) {
    unsigned v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < in.size() ? static_cast<unsigned char>(in[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) r += i + k <= in.size() ? a[v >> (18 - 6 * k) & 63] : '=';
  }
  return r;
}

struct Entry {
  std::shared_ptr<Fixed> c;
  size_t id;
  Key extra;
};

void fill(Source& s, Fixed* f, bool small = false) {
  switch (small ? 0 : s.weighted({6, 2, 4, 1})) {
    case 0: {  // a number that tells one content from another
      MetricFamily m;
      m.name = "content";
      m.help = "h";
      m.type = MetricType::Gauge;
      ClientMetric c;
      c.gauge.value = static_cast<double>(s.draw(1000000));
      m.metric.push_back(c);
      f->families = {m};
      break;
    }
    case 1: f->families.clear(); break;  // an empty body
    case 2: f->families = gen::families(s, 3); break;
    default: {
      MetricFamily m;
      m.name = "large";
      m.type = MetricType::Gauge;
      static const size_t sizes[] = {1000, 16000, 64000, 65536, 70000, 300000, 1000000, 1100000, 2500000};
      m.help = std::string(sizes[s.draw(sizeof sizes / sizeof *sizes)] + s.draw(100), static_cast<char>('a' + s.draw(26)));
      m.metric.resize(1);
      f->families = {m};
      s.cls("large body");
      break;
    }
  }
}

}  // namespace

namespace pbt {

static httpd::Server* server;

void pbt_init() {
  curl_global_init(CURL_GLOBAL_ALL);
  server = new httpd::Server;
}

void pbt_case(Source& s) {
  fillStdin();
  server->script({}, {s.chance(1, 4) ? httpd::Act::StatusClose : httpd::Act::Status, s.chance(1, 4) ? 202 : 200});
  const std::string port = std::to_string(server->port());
  const std::string job = s.coin() ? labelValue(s) : "j";
  const Labels labels = s.coin() ? groupingLabels(s) : Labels{};
  std::unique_ptr<Gateway> g;
  std::string prefix, authorization, agent;
  auto printable = [&](bool colon) {
    std::string r;
    size_t n = s.length(20);
    if (const size_t more = gen::bulk(s, 2000, 6)) return std::string(more, static_cast<char>('a' + s.draw(26)));
    for (size_t i = 0; i < n; ++i) {
      char c = static_cast<char>(s.coin() ? 'a' + s.draw(26) : 1 + s.draw(255));
      if (c == ':' && !colon) c = ';';
      r += c;
    }
    return r;
  };
  switch (s.weighted({2, 2, 2, 2, 1})) {
    case 4:  // no set-up at all
      if (s.coin()) {
        g.reset(new Gateway("127.0.0.1", port, std::function<void(CURL*)>{}, job, labels));
      } else {
        g.reset(new Gateway("127.0.0.1:" + port, std::function<void(CURL*)>{}, job, labels));
      }
      s.cls("without set-up");
      break;
    case 0: g.reset(new Gateway("127.0.0.1", port, job, labels)); break;
    case 1: {
      const std::string user = "u" + printable(false), password = printable(true);
      authorization = "Basic " + encode64(user + ":" + password);
      PBT_NOTE(s, "user " << esc(user) << " password " << esc(password));
      g.reset(new Gateway("127.0.0.1", port, job, labels, user, password, std::chrono::seconds(s.draw(3) * 30)));
      s.cls("credentials");
      break;
    }
    case 2: {
      agent = "agent" + std::to_string(s.draw(100));
      const std::string a = agent;
      g.reset(new Gateway("http://127.0.0.1", port,
                          [a](CURL* c) { curl_easy_setopt(c, CURLOPT_USERAGENT, a.c_str()); }, job, labels));
      s.cls("set up by the user");
      break;
    }
    default: {
      prefix = s.coin() ? "/pg" : "";
      agent = "agent" + std::to_string(s.draw(100));
      authorization = "Basic " + encode64("me:secret");
      const std::string a = agent;
      g.reset(new Gateway("http://127.0.0.1:" + port + prefix + (s.coin() ? "/" : ""),
                          [a](CURL* c) {
                            curl_easy_setopt(c, CURLOPT_USERAGENT, a.c_str());
                            curl_easy_setopt(c, CURLOPT_USERPWD, "me:secret");
                          },
                          job, labels));
      s.cls("set up by the user");
      break;
    }
  }
  Key base{{"job", job}};
  Key instance = base;
  for (auto& l : labels) instance.push_back(l);
  PBT_NOTE(s, "prefix " << prefix << " key " << pushutil::show(instance));

  std::vector<std::pair<std::string, std::string>> headers;
  std::vector<Entry> entries;                  // in the order of registration
  std::vector<std::shared_ptr<Fixed>> things;  // alive

  size_t pushes = 0, requests = 0;

  auto wantsOf = [&](int op) {
    std::vector<Want> w;
    if (op >= 2) {
      w.push_back({"DELETE", op == 2 ? base : instance, "", false});
      return w;
    }
    for (auto& e : entries) {
      if (!e.c) continue;
      Key k = instance;
      k.insert(k.end(), e.extra.begin(), e.extra.end());
      w.push_back({op == 0 ? "POST" : "PUT", k, bodyOf(*e.c), true});
    }
    return w;
  };

  auto check = [&](std::vector<Want> wants, bool ordered) {
    auto got = server->take();
    requests += got.size();
    PBT_CHECK(got.size() == wants.size(), got.size() << " requests instead of " << wants.size());
    for (auto& r : got) {
      PBT_NOTE(s, "  got " << r.method << " " << esc(r.target) << " with " << r.body.size() << " bytes");
    }
    for (size_t i = 0; i < got.size(); ++i) {
      const auto& r = got[i];
      const Key key = groupingKey(r.target, prefix);
      size_t at = wants.size();
      for (size_t k = 0; k < wants.size(); ++k) {
        const bool same = wants[k].method == r.method && wants[k].key == key && wants[k].body == r.body;
        if (same) {
          at = k;
          break;
        }
        if (ordered) break;
      }
      if (at == wants.size()) {
        std::string e;
        for (auto& w : wants) e += "\n  " + show(w) + ": " + esc(w.body.substr(0, 200));
        pbt::fail("request " + std::to_string(i) + " " + show(Want{r.method, key, r.body, false}) + ": " +
                  esc(r.body.substr(0, 200)) + " is not among the expected ones" + (ordered ? " (next in order)" : "") + e);
      }
      const Want w = wants[at];
      wants.erase(wants.begin() + static_cast<long>(at));
      if (w.push) {
        const auto types = r.all("content-type");
        PBT_CHECK(types.size() == 1 && types[0].compare(0, 25, "text/plain; version=0.0.4") == 0,
                  "content type of " << show(w) << ": " << types.size() << " " << (types.empty() ? "" : types[0]));
      }
      const auto auth = r.all("authorization");
      PBT_CHECK(auth.size() == (authorization.empty() ? 0u : 1u) && (auth.empty() || auth[0] == authorization),
                "credentials of " << show(w) << ": " << auth.size() << " " << (auth.empty() ? "" : auth[0])
                                  << " instead of " << authorization);
      if (!agent.empty()) {
        const auto a = r.all("user-agent");
        PBT_CHECK(a.size() == 1 && a[0] == agent, "user agent of " << show(w) << ": " << (a.empty() ? "none" : a[0]));
      }
      std::vector<std::pair<std::string, std::string>> custom;
      for (auto& h : r.headers) {
        if (h.first[0] == 'x') custom.push_back(h);
      }
      PBT_CHECK(custom == headers, custom.size() << " custom headers instead of " << headers.size() << " in " << show(w));
    }
  };

  const size_t ops = 2 + s.length(14);
  for (size_t i = 0; i < ops; ++i) {
    switch (s.weighted({16, 16, 8, 6, 8, 4, 8, 1})) {
      case 7: {  // many collectables
        const size_t n = gen::bulk(s, s.chance(1, 6) ? 400 : 60, 1);
        PBT_NOTE(s, "register " << n << " collectables");
        for (size_t k = 0; k < n; ++k) {
          Entry e;
          e.c = std::make_shared<Fixed>();
          fill(s, e.c.get(), true);
          things.push_back(e.c);
          g->RegisterCollectable(e.c);
          entries.push_back(e);
        }
        s.cls("many collectables");
        break;
      }
      case 0: {  // register
        std::shared_ptr<Fixed> c;
        if (!things.empty() && s.chance(1, 4)) {
          c = things[s.draw(things.size())];
          s.cls("registered twice");
        } else {
          c = std::make_shared<Fixed>();
          fill(s, c.get());
          things.push_back(c);
        }
        Labels extra;
        const int form = static_cast<int>(s.draw(3));
        if (form == 1) extra["n"] = std::to_string(s.draw(5));
        if (form == 2) extra = groupingLabels(s, labels);
        if (labels.count("n")) extra.erase("n");
        Entry e;
        e.c = c;
        for (auto& l : extra) e.extra.push_back(l);
        PBT_NOTE(s, "register collectable at " << (std::find(things.begin(), things.end(), c) - things.begin())
                                               << " with " << pushutil::show(e.extra));
        g->RegisterCollectable(c, form ? &extra : nullptr);
        entries.push_back(e);
        break;
      }
      case 1:
      case 2: {  // push, delete
        const int op = static_cast<int>(s.weighted({3, 3, 1, 1}));
        static const char* names[] = {"push", "push-add", "delete", "delete of the instance"};
        PBT_NOTE(s, names[op]);
        const auto wants = wantsOf(op);
        int status = 0;
        switch (op) {
          case 0: status = g->Push(); break;
          case 1: status = g->PushAdd(); break;
          case 2: status = g->Delete(); break;
          default: status = g->DeleteForInstance(); break;
        }
        PBT_CHECK(status >= 200 && status < 300, names[op] << " returns " << status);
        if (op < 2) ++pushes;
        check(wants, true);
        break;
      }
      case 3: {  // asynchronous operations
        const size_t n = 1 + s.draw(3);
        std::vector<Want> wants;
        std::vector<std::future<int>> futures;
        for (size_t k = 0; k < n; ++k) {
          const int op = static_cast<int>(s.weighted({3, 3, 1, 1}));
          PBT_NOTE(s, "asynchronous operation " << op);
          const auto w = wantsOf(op);
          wants.insert(wants.end(), w.begin(), w.end());
          switch (op) {
            case 0: futures.push_back(g->AsyncPush()); break;
            case 1: futures.push_back(g->AsyncPushAdd()); break;
            case 2: futures.push_back(g->AsyncDelete()); break;
            default: futures.push_back(g->AsyncDeleteForInstance()); break;
          }
          if (op < 2) ++pushes;
        }
        if (!things.empty() && s.coin()) {  // what was pushed may go
          const auto c = things[s.draw(things.size())];
          for (auto& e : entries) {
            if (e.c == c) e.c.reset();
          }
          things.erase(std::find(things.begin(), things.end(), c));
        }
        for (auto& f : futures) {
          PBT_CHECK(f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "a future does not become ready");
          const int status = f.get();
          PBT_CHECK(status >= 200 && status < 300, "an asynchronous operation returns " << status);
        }
        check(wants, false);
        s.cls("asynchronous");
        break;
      }
      case 4: {  // other content
        if (things.empty()) break;
        const size_t k = s.draw(things.size());
        PBT_NOTE(s, "update of collectable " << k);
        fill(s, things[k].get());
        break;
      }
      case 5: {  // the collectable goes
        if (things.empty()) break;
        const size_t k = s.draw(things.size());
        PBT_NOTE(s, "end of collectable " << k);
        std::weak_ptr<Fixed> w = things[k];
        for (auto& e : entries) {
          if (e.c == things[k]) e.c.reset();
        }
        things.erase(things.begin() + static_cast<long>(k));
        PBT_CHECK(w.expired(), "the gateway keeps a collectable alive");
        s.cls("destroyed");
        break;
      }
      default: {
        const std::string name = "X" + std::to_string(s.draw(6)), value = "v" + std::to_string(s.draw(1000));
        PBT_NOTE(s, "header " << name << " " << value);
        PBT_CHECK(g->AddHttpHeader(name + (s.coin() ? ": " : ":") + value), "a header is refused");
        std::string low = name;
        low[0] = 'x';
        headers.push_back({low, value});
        s.cls("custom header");
        break;
      }
    }
  }
  if (requests > 1 && pushes > 0) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
