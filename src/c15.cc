// C15: histories of register, remove, destroy, update and scrape.
#include <signal.h>

#include <algorithm>
#include <map>

#include "prometheus/counter.h"
#include "prometheus/registry.h"
#include "pullutil.h"

using namespace prometheus;
using namespace pullutil;
using pbt::Source;

namespace pbt {

void pbt_init() { signal(SIGPIPE, SIG_IGN); }

void pbt_case(Source& s) {
  static const std::string long1 = "/" + std::string(100, 'p'), long2 = "/" + std::string(900, 'q');
  static const std::string longer[] = {long1 + "1", long1 + "2", long2 + "1", long2 + "2"};
  static const char* paths[] = {"/metrics", "/m", "/metrics2", "/a", "/a/b", "/metricsX/y", "/x-y_z.0~", "/Metrics", "/a/", "/metrics/", "/"};
  const size_t ports = 1 + s.draw(2);
  std::unique_ptr<Exposer> exposer;
  if (s.coin()) {
    exposer.reset(new Exposer(ports == 2 ? "127.0.0.1:0,127.0.0.1:0" : "127.0.0.1:0", 1 + s.draw(3)));
  } else {
    exposer.reset(new Exposer(std::vector<std::string>{"listening_ports", ports == 2 ? "127.0.0.1:0,127.0.0.1:0" : "127.0.0.1:0",
                                                       "num_threads", "2", "enable_keep_alive", s.coin() ? "yes" : "no"}));
  }
  const auto listening = exposer->GetListeningPorts();
  PBT_CHECK(listening.size() == ports, listening.size() << " ports instead of " << ports);
  for (int p : listening) PBT_CHECK(p > 0 && p < 65536, "listening port " << p);
  if (ports == 2) PBT_CHECK(listening[0] != listening[1], "the same port twice");

  std::vector<std::shared_ptr<Collectable>> things;  // null: destroyed
  std::vector<bool> isRegistry;
  std::map<size_t, size_t> partner;  // parts of one object: they share their ownership
  std::map<std::string, std::vector<size_t>> registered;  // per endpoint
  std::map<std::string, uint64_t> scrapes;

  size_t removals = 0, total = 0;
  const bool longPaths = s.chance(1, 8);
  auto pickPath = [&]() -> std::string {
    if (longPaths && s.coin()) return longer[s.draw(4)];
    if (s.chance(1, 20)) return "/n" + std::to_string(s.draw(40)) + "n";
     return paths[s.coin() ? 0 : s.draw(sizeof paths / sizeof *paths)]; };
  auto pickThing = [&]() -> size_t {
    if (things.size() < 2 || (things.size() < 6 && s.coin())) {
      const std::string n = "c" + std::to_string(things.size());
      if (s.chance(1, 6)) {
        struct Both {
          Fixed a, b;
        };
        auto both = std::make_shared<Both>();
        const size_t k = things.size();
        both->a.families = uniqueFamilies(s, "c" + std::to_string(k), 3);
        both->b.families = uniqueFamilies(s, "c" + std::to_string(k + 1), 3);
        things.emplace_back(both, &both->a);
        things.emplace_back(both, &both->b);
        isRegistry.push_back(false);
        isRegistry.push_back(false);
        partner[k] = k + 1;
        partner[k + 1] = k;
        s.cls("shared ownership");
        return k + s.draw(2);
      }
      const bool reg = s.coin();
      isRegistry.push_back(reg);
      if (reg) {
        auto r = std::make_shared<Registry>();
        if (s.coin()) BuildCounter().Name(n).Register(*r).Add({{"a", "b"}});
        things.push_back(r);
      } else {
        auto f = std::make_shared<Fixed>();
        f->families = uniqueFamilies(s, n, 3);
        things.push_back(f);
      }
      return things.size() - 1;
    }
    return s.draw(things.size());
  };
  auto check = [&](const std::string& path) {
    const int port = listening[s.draw(listening.size())];
    const std::string what = "scrape of " + path;
    static const char* queries[] = {"", "?a=b", "?"};
    const std::string q = queries[s.weighted({6, 1, 1})];
    PBT_NOTE(s, what << q);
    const auto r = httpc::get(port, path + q);
    const std::string text = metricsText(r, false, what);
    std::vector<std::string> blocks;
    for (size_t k : registered[path]) {
      if (things[k]) blocks.push_back(textOf(*things[k]));
    }
    const Own own = consume(text, blocks, what);
    PBT_CHECK(own.scrapes <= scrapes[path], what << ": " << own.scrapes << " scrapes counted after " << scrapes[path]);
    ++scrapes[path];
    total += blocks.size();
  };

  const size_t ops = 2 + s.length(25);
  for (size_t i = 0; i < ops; ++i) {
    switch (s.weighted({10, 10, 4, 4, 6, 2, 2, 1})) {
      case 7: {  // many collectables, or many paths
        const bool spread = s.coin();
        const size_t n = gen::bulk(s, spread ? 80 : 1200, 2);
        const std::string path = pickPath();
        PBT_NOTE(s, "register " << n << " more on " << (spread ? "paths of their own" : path));
        for (size_t j = 0; j < n; ++j) {
          auto f = std::make_shared<Fixed>();
          f->families = {numberFamily("c" + std::to_string(things.size()), static_cast<double>(j))};
          things.push_back(f);
          isRegistry.push_back(false);
          const std::string p = spread ? "/s" + std::to_string(j) + "s" : path;
          exposer->RegisterCollectable(f, p);
          registered[p].push_back(things.size() - 1);
        }
        s.cls("many");
        break;
      }
      case 0: {  // register
        const std::string path = pickPath();
        const size_t k = pickThing();
        PBT_NOTE(s, "register " << k << " on " << path << (things[k] ? "" : " (destroyed)"));
        if (path == "/metrics" && s.coin()) {
          exposer->RegisterCollectable(things[k]);
        } else {
          exposer->RegisterCollectable(things[k], path);
        }
        registered[path].push_back(k);
        break;
      }
      case 1: {  // scrape
        if (registered.empty()) break;
        auto it = registered.begin();
        std::advance(it, s.draw(registered.size()));
        check(it->first);
        break;
      }
      case 2: {  // remove
        if (registered.empty() || things.empty()) break;
        auto it = registered.begin();
        std::advance(it, s.draw(registered.size()));
        const size_t k = !it->second.empty() && s.chance(3, 4) ? it->second[s.draw(it->second.size())] : s.draw(things.size());
        PBT_NOTE(s, "remove " << k << " from " << it->first << (things[k] ? "" : " (destroyed)"));
        if (it->first == "/metrics" && s.coin()) {
          exposer->RemoveCollectable(things[k]);
        } else {
          exposer->RemoveCollectable(things[k], it->first);
        }
        auto& v = it->second;
        if (things[k]) v.erase(std::remove(v.begin(), v.end(), k), v.end());
        ++removals;
        break;
      }
      case 3: {  // destroy
        if (things.empty()) break;
        const size_t k = s.draw(things.size());
        if (!things[k]) break;
        PBT_NOTE(s, "destroy " << k);
        std::weak_ptr<Collectable> w = things[k];
        things[k].reset();
        if (partner.count(k)) things[partner[k]].reset();
        // a request that just ended may still hold it
        for (int t = 0; t < 5000 && !w.expired(); ++t) usleep(1000);
        PBT_CHECK(w.expired(), "collectable " << k << " is kept alive by the exposer");
        ++removals;
        break;
      }
      case 4: {  // update
        if (things.empty()) break;
        const size_t k = s.draw(things.size());
        if (!things[k]) break;
        PBT_NOTE(s, "update " << k);
        const std::string n = "c" + std::to_string(k);
        if (isRegistry[k]) {
          BuildCounter().Name(n).Register(static_cast<Registry&>(*things[k])).Add({{"l", std::to_string(s.draw(3))}}).Increment(
              static_cast<double>(s.draw(100)));
        } else {
          static_cast<Fixed&>(*things[k]).families = uniqueFamilies(s, n, 3);
        }
        break;
      }
      case 5: {  // a path nobody registered
        // unlike any other, because civetweb matches prefixes
        static const char* others[] = {"/", "/unknown", "/nope/metrics", "/0"};
        const std::string path = others[s.draw(4)];
        if (registered.count("/")) break;
        PBT_NOTE(s, "request of unknown " << path);
        const auto r = httpc::get(listening[0], path);
        PBT_CHECK(r.complete && r.status != 200, "unknown path " << path << ": " << r.error << " " << r.status);
        break;
      }
      default: {  // every port
        if (registered.empty()) break;
        const std::string path = registered.begin()->first;
        for (size_t k = 0; k < listening.size(); ++k) check(path);
        break;
      }
    }
  }
  for (auto& r : registered) check(r.first);
  if (registered.size() > 1) s.cls("several paths");
  if (removals) s.cls("removed or destroyed");
  if (ports == 2) s.cls("two ports");
  if (total > 1 && (registered.size() > 1 || removals)) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
