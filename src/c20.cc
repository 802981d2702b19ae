// C20: grouping keys survive the way through the HTTP client.
#include <curl/curl.h>

#include <memory>

#include "locales.h"
#include "pushutil.h"

using namespace prometheus;
using namespace pushutil;
using pbt::Source;

namespace pbt {

static httpd::Server* server;

static bool disjoint(const Labels& a, const Labels& b) {
  for (auto& l : a) {
    if (b.count(l.first)) return false;
  }
  return true;
}

void pbt_init() {
  curl_global_init(CURL_GLOBAL_ALL);
  server = new httpd::Server;
}

static void oneGateway(Source& s, const Labels* shared);

void pbt_case(Source& s) {
  const locales::Scope locale(s, 8);
  server->script({});
  const Labels* shared = nullptr;
  const Labels common = groupingLabels(s);
  if (s.chance(1, 4)) shared = &common;
  const size_t gateways = s.chance(1, 3) ? 2 : 1;
  if (gateways > 1) s.cls("several gateways");
  for (size_t i = 0; i < gateways; ++i) oneGateway(s, shared);
}

static void oneGateway(Source& s, const Labels* shared) {
  const std::string port = std::to_string(server->port());
  const std::string job = labelValue(s);
  Labels labels = groupingLabels(s);
  if (s.chance(1, 5)) {
    const std::string host = labelValue(s);
    labels = Gateway::GetInstanceLabel(host);
    PBT_CHECK(labels == (host.empty() ? Labels{} : Labels{{"instance", host}}), "instance label of " << esc(host));
    s.cls("instance label");
  }
  std::unique_ptr<Gateway> g;
  std::string prefix;
  switch (s.draw(4)) {
    case 0: g.reset(new Gateway("127.0.0.1", port, job, labels)); break;
    case 1: g.reset(new Gateway("http://127.0.0.1", port, [](CURL*) {}, job, labels)); break;
    default: {
      static const char* prefixes[] = {"", "/pg", "/a/b.c/~d"};
      prefix = prefixes[s.draw(3)];
      std::string url = "http://127.0.0.1:" + port + prefix + (s.coin() ? "/" : "");
      g.reset(new Gateway(url, [](CURL*) {}, job, labels));
      break;
    }
  }
  Key base{{"job", job}};
  Key instance = base;
  for (auto& l : labels) instance.push_back(l);
  PBT_NOTE(s, "prefix " << prefix << " key " << show(instance));
  auto expect = [&](const Key& want, const char* what) {
    auto r = server->take();
    PBT_CHECK(r.size() == 1, what << " sends " << r.size() << " requests");
    PBT_NOTE(s, what << ": " << esc(r[0].target));
    const Key got = groupingKey(r[0].target, prefix);
    PBT_CHECK(got == want, what << " of " << pushutil::show(want) << " arrives as " << pushutil::show(got)
                                << " by path " << esc(r[0].target));
  };
  const size_t ops = 1 + s.draw(3);
  for (size_t i = 0; i < ops; ++i) {
    switch (s.draw(3)) {
      case 0: {
        auto c = std::make_shared<Fixed>();
        Labels extra;
        const bool with = s.coin();
        if (with) extra = shared && disjoint(*shared, labels) ? *shared : groupingLabels(s, labels);
        g->RegisterCollectable(c, with ? &extra : nullptr);
        Key want = instance;
        for (auto& l : extra) want.push_back(l);
        extra.clear();  // the caller's own
        const int status = s.coin() ? g->Push() : g->PushAdd();
        PBT_CHECK(status == 200, "push with key " << pushutil::show(want) << " returns " << status);
        expect(want, "push");
        break;
      }
      case 1: {
        const int status = g->Delete();
        PBT_CHECK(status == 200, "delete returns " << status);
        expect(base, "delete");
        break;
      }
      default: {
        const int status = g->DeleteForInstance();
        PBT_CHECK(status == 200, "delete of the instance returns " << status);
        expect(instance, "delete of the instance");
        break;
      }
    }
  }
  for (auto& p : instance) {
    if (p.second.empty()) s.cls("empty value");
    if (p.second.find('/') != std::string::npos) s.cls("slash");
    if (p.second == "." || p.second == "..") s.cls("dot segment");
  }
  if (instance.size() > 1 || job.find_first_not_of("abcXYZ") != std::string::npos) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
