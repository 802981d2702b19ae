// C17: authentication of scrapes.
#include <signal.h>

#include <algorithm>
#include <map>
#include <mutex>
#include <set>

#include "pullutil.h"

using namespace prometheus;
using namespace pullutil;
using pbt::Source;

namespace {

using Pair = std::pair<std::string, std::string>;

const char kAlphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string encode64(const std::string& in) {
  std::string r;
  for (size_t i = 0; i < in.size(); i += 3) {
    unsigned v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < in.size() ? static_cast<unsigned char>(in[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) r += i + k <= in.size() ? kAlphabet[v >> (18 - 6 * k) & 63] : '=';
  }
  return r;
}

// 0: no base64 in any reading, 1: exactly as it should be, 2: something in between
int decode64(std::string in, std::string* out) {
  int quality = 1;
  std::string s;
  for (char c : in) {
    if (c == ' ' || c == '\t') {
      quality = 2;
      continue;
    }
    if (c == '-' || c == '_') {
      quality = 2;
      c = c == '-' ? '+' : '/';
    }
    s += c;
  }
  if (s.size() % 4 != 0) quality = 2;
  size_t pad = 0;
  while (!s.empty() && s.back() == '=') {
    s.pop_back();
    ++pad;
  }
  // no data behind padding, no wrong amount of it, no left over character
  if (pad > 2 || s.size() % 4 == 1) return 0;
  if (pad && (s.size() + pad) % 4 != 0) return 0;
  out->clear();
  unsigned acc = 0, bits = 0;
  for (char c : s) {
    const char* p = c ? strchr(kAlphabet, c) : nullptr;
    if (!p) return 0;
    acc = acc << 6 | static_cast<unsigned>(p - kAlphabet);
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      *out += static_cast<char>(acc >> bits & 0xff);
    }
  }
  if (acc & ((1u << bits) - 1)) quality = 2;
  return quality;
}

// what the header says: 0 no credentials, 1 credentials, 2 arguable ones
int credentials(const std::string& header, Pair* p) {
  std::string h = header;
  int quality = 1;
  while (!h.empty() && (h.back() == ' ' || h.back() == '\t')) {
    h.pop_back();
    quality = 2;
  }
  while (!h.empty() && (h[0] == ' ' || h[0] == '\t')) {
    h.erase(0, 1);
    quality = 2;
  }
  std::string scheme = h.substr(0, 5);
  if (scheme != "Basic") quality = 2;
  for (auto& c : scheme) c = static_cast<char>(tolower(c));
  if (scheme != "basic" || h.size() < 6) return 0;
  if (h[5] == '\t') quality = 2;
  if (h[5] != ' ' && h[5] != '\t') return 0;
  std::string d;
  const int q = decode64(h.substr(6), &d);
  if (q == 0) return 0;
  const size_t colon = d.find(':');
  if (colon == std::string::npos) return 0;
  p->first = d.substr(0, colon);
  p->second = d.substr(colon + 1);
  return q == 1 ? quality : 2;
}

struct Auth {
  std::mutex m;
  std::set<Pair> accepted;
  Pair revoked;
  bool hasRevoked = false;
  std::vector<Pair> seen;
  std::string realm;
};

std::string word(Source& s, bool colon) {
  std::string r;
  static const char* some[] = {"user", "", "secret", "a", "admin", "User", "x y", "pass:word", "::", "=", "\xc3\xa4", "%s%n", "a\tb"};
  if (s.coin()) {
    r = some[s.draw(sizeof some / sizeof *some)];
  } else {
    const size_t n = s.length(s.chance(1, 20) ? 3000 : 30);
    const bool bytes = s.coin();
    for (size_t i = 0; i < n; ++i) r += static_cast<char>(bytes ? s.draw(256) : 'a' + s.draw(26));
  }
  if (!colon) {
    for (auto& c : r) {
      if (c == ':') c = '.';
    }
  }
  return r;
}

std::string realmName(Source& s) {
  static const char* some[] = {"R", "My Realm", "", "100%", "%s%s%d%n", "a,b;c=d", "\xc3\xa4"};
  if (s.chance(1, 20)) return std::string(2000 + s.draw(2000), 'r');
  return some[s.draw(7)];
}

}  // namespace

namespace pbt {

void pbt_init() { signal(SIGPIPE, SIG_IGN); }

void pbt_case(Source& s) {
  // names that begin alike are different paths (except that civetweb applies the authentication of a path to longer
  // ones without authentication of their own)
  static const char* pools[][6] = {
      {"/metrics", "/open", "/priv/ate", "/x~y", "/metrics2", "/metric"},
      {"/metrics", "/m", "/me", "/met", "/mex", "/etrics"},
      {"/metrics", "/metrics.json", "/metrics-internal", "/a/metrics", "/metrics_", "/ametrics"},
  };
  const auto& paths = pools[s.weighted({3, 1, 1})];
  Exposer exposer("127.0.0.1:0", 1 + s.draw(2));
  const int port = exposer.GetListeningPorts().at(0);
  auto thing = std::make_shared<Fixed>();
  thing->families = {numberFamily("classified", 42)};
  std::map<std::string, std::shared_ptr<Auth>> current;
  std::vector<std::shared_ptr<Auth>> replaced;
  std::set<std::string> endpoints, filled;
  size_t protectedRequests = 0, accepted = 0, rejected = 0;

  auto leaks = [](const std::string& body) {
    return body.find("classified") != std::string::npos || body.find("exposer_") != std::string::npos;
  };
  auto header = [&](const std::string& path, bool* has) -> std::string {
    Pair p;
    auto it = current.find(path);
    if (it != current.end() && !it->second->accepted.empty()) {
      auto a = it->second->accepted.begin();
      std::advance(a, s.draw(it->second->accepted.size()));
      p = *a;
    } else {
      p = {word(s, false), word(s, true)};
    }
    *has = true;
    switch (s.weighted({6, 2, 4, 3, 4, 4, 1, 2})) {
      case 0: return "Basic " + encode64(p.first + ":" + p.second);
      case 1: *has = false; return "";
      case 2: {  // close to the right credentials
        switch (s.draw(8)) {
          case 0: p.second += "x"; break;
          case 1: p.first += "x"; break;
          case 2: std::swap(p.first, p.second); break;
          case 3: p.second = ":" + p.second; break;
          case 4: p.second += '\0'; break;
          case 5: if (!p.second.empty()) p.second.pop_back(); break;
          case 6: p.first += '\0'; break;
          default: p.second = ""; break;
        }
        return "Basic " + encode64(p.first + ":" + p.second);
      }
      case 3: return "Basic " + encode64(word(s, false) + ":" + word(s, true));
      case 4: {  // other forms
        const std::string good = encode64(p.first + ":" + p.second);
        switch (s.draw(14)) {
          case 0: return "basic " + good;
          case 1: return "Bearer " + good;
          case 2: return "Basic  " + good;
          case 3: return "Basic" + good;
          case 4: return "Basic";
          case 5: return "Basic ";
          case 6: return "Basic " + p.first.substr(0, 20) + ":" + "x";
          case 7: return "Basic " + encode64(p.first + p.second);
          case 8: return "Basic " + good + "=";
          case 9: return "Basic " + good.substr(0, good.find('='));
          case 10: return "Basic " + good + good;
          case 11: return "Digest " + good;
          case 12: return "Basic " + good.substr(0, good.size() - 1);
          default: return "Basic " + good + ", Basic " + good;
        }
      }
      case 5: {  // edits
        std::string h = "Basic " + encode64(p.first + ":" + p.second);
        const size_t n = 1 + s.draw(3);
        for (size_t i = 0; i < n && !h.empty(); ++i) {
          const size_t at = s.draw(h.size());
          const char c = s.coin() ? kAlphabet[s.draw(64)] : "= :-_\t,.B\x7f\xff\x01"[s.draw(12)];
          switch (s.draw(3)) {
            case 0: h[at] = c; break;
            case 1: h.erase(at, 1); break;
            default: h.insert(at, 1, c); break;
          }
        }
        return h;
      }
      case 6: {
        std::string h;
        const size_t n = s.length(60);
        for (size_t i = 0; i < n; ++i) h += static_cast<char>(32 + s.draw(95));
        return h;
      }
      default: {  // no colon, or bytes
        const std::string w = word(s, true);
        return "Basic " + encode64(w);
      }
    }
  };

  const size_t ops = 3 + s.length(25);
  for (size_t i = 0; i < ops; ++i) {
    const std::string path = paths[s.coin() ? 0 : s.draw(6)];
    switch (s.weighted({80, 20, 10, 10, 10, 8, 1})) {
      case 0: {
        if (!endpoints.count(path)) break;
        bool has = false;
        const std::string h = header(path, &has);
        const auto it = current.find(path);
        PBT_NOTE(s, "GET " << path << " with " << (has ? esc(h) : "no credentials"));
        if (h.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) break;
        static const char* names[] = {"Authorization: ", "authorization: ", "AUTHORIZATION: "};
        const auto r = httpc::get(port, path, has ? names[s.weighted({4, 1, 1})] + h + "\r\n" : "");
        const std::string what = "GET " + path + " with " + (has ? esc(h) : "no credentials");
        PBT_CHECK(r.complete, what << ": " << r.error);
        if (it == current.end()) {
          if (r.status == 400 && h.find_first_not_of(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`"
                                                     "abcdefghijklmnopqrstuvwxyz{|}~") != std::string::npos) {
            break;  // not even HTTP
          }
          bool extends = false;
          for (auto& c : current) {
            if (path.compare(0, c.first.size(), c.first) != 0) continue;
            extends = true;
            std::lock_guard<std::mutex> l(c.second->m);
            c.second->seen.clear();
          }
          if (extends && r.status == 401) break;
          std::vector<std::string> blocks;
          if (filled.count(path)) blocks.push_back(textOf(*thing));
          consume(metricsText(r, false, what), blocks, what);
          break;
        }
        ++protectedRequests;
        Auth& a = *it->second;
        std::vector<Pair> seen;
        {
          std::lock_guard<std::mutex> l(a.m);
          seen.swap(a.seen);
        }
        for (auto& o : replaced) {
          std::lock_guard<std::mutex> l(o->m);
          PBT_CHECK(o->seen.empty(), what << ": a replaced callback is asked");
        }
        for (auto& c : current) {
          std::lock_guard<std::mutex> l(c.second->m);
          PBT_CHECK(c.second->seen.empty(), what << ": the callback of " << c.first << " is asked");
        }
        Pair p;
        const int quality = has ? credentials(h, &p) : 0;
        const bool ok = quality && a.accepted.count(p);
        const std::string asked = seen.empty() ? "nothing" : esc(seen[0].first) + " " + esc(seen[0].second);
        if (quality == 1) {
          PBT_CHECK(seen.size() == 1 && seen[0] == p, what << ": the callback is asked for " << asked << " (" << seen.size()
                                                           << " times) instead of " << esc(p.first) << " " << esc(p.second));
        } else if (quality == 2) {
          PBT_CHECK(seen.size() <= 1 && (seen.empty() || seen[0] == p), what << ": the callback is asked for " << asked);
        } else {
          PBT_CHECK(seen.empty(), what << ": the callback is asked for " << asked);
        }
        const bool allowed = quality == 1 ? ok : ok && !seen.empty();
        if (allowed) {
          std::vector<std::string> blocks;
          if (filled.count(path)) blocks.push_back(textOf(*thing));
          consume(metricsText(r, false, what), blocks, what);
          ++accepted;
        } else {
          PBT_CHECK(!leaks(r.body), what << ": metrics are delivered with status " << r.status);
          if (r.status == 400 && h.find_first_not_of(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`"
                                                     "abcdefghijklmnopqrstuvwxyz{|}~") != std::string::npos) {
            break;
          }
          PBT_CHECK(r.status == 401, what << ": status " << r.status);
          const auto www = r.all("www-authenticate");
          PBT_CHECK(www.size() == 1 && www[0] == "Basic realm=\"" + a.realm + "\"",
                    what << ": challenge " << (www.empty() ? "missing" : esc(www[0])));
          ++rejected;
        }
        break;
      }
      case 1: {  // (re)place authentication
        auto a = std::make_shared<Auth>();
        const size_t n = s.draw(4);
        for (size_t k = 0; k < n; ++k) a->accepted.insert({word(s, false), word(s, true)});
        a->realm = realmName(s);
        auto callback = [a](const std::string& user, const std::string& password) {
          std::lock_guard<std::mutex> l(a->m);
          a->seen.push_back({user, password});
          return a->accepted.count({user, password}) > 0;
        };
        PBT_NOTE(s, "authentication for " << path << " with " << n << " users, realm " << esc(a->realm));
        if (path == "/metrics" && s.coin()) {
          if (s.coin()) {
            a->realm = "Prometheus-cpp Exporter";
            exposer.RegisterAuth(callback);
          } else {
            exposer.RegisterAuth(callback, a->realm);
          }
        } else {
          exposer.RegisterAuth(callback, a->realm, path);
        }
        if (current.count(path)) {
          replaced.push_back(current[path]);
          s.cls("replaced");
        }
        current[path] = a;
        endpoints.insert(path);
        break;
      }
      case 2: {
        PBT_NOTE(s, "register on " << path);
        if (filled.count(path)) break;
        exposer.RegisterCollectable(thing, path);
        endpoints.insert(path);
        filled.insert(path);
        break;
      }
      case 3: {  // ways around
        if (!current.count(path)) break;
        static const char* forms[] = {"%s/", "%s?a=b", "/%s", "/.%s", "%s/.", "%s/y/..", "http://localhost%s", "%s%%00",
                                      "%s;a=b", "/x/..%s", "%s/x", "//.%s", "%s#x", "%s%%20", "%s?Authorization=Basic"};
        char target[200];
        snprintf(target, sizeof target, forms[s.draw(sizeof forms / sizeof *forms)], path.c_str());
        std::string t = target;
        if (s.coin()) {  // an encoded letter
          const size_t at = t.rfind(path[path.size() - 1]);
          if (at != std::string::npos && at > 0 && t[at] != '%') {
            char b[8];
            snprintf(b, sizeof b, "%%%02x", t[at]);
            t.replace(at, 1, b);
          }
        }
        PBT_NOTE(s, "GET " << t << " without credentials");
        const auto r = httpc::get(port, t);
        PBT_CHECK(!leaks(r.body), "GET " << t << " without credentials delivers the metrics of " << path);
        ++protectedRequests;
        s.cls("ways around");
        break;
      }
      case 5: {  // the callback changes its mind
        if (!current.count(path)) break;
        Auth& a = *current[path];
        std::lock_guard<std::mutex> l(a.m);
        if (s.coin() && !a.accepted.empty()) {
          auto it = a.accepted.begin();
          std::advance(it, static_cast<long>(s.draw(a.accepted.size())));
          PBT_NOTE(s, "user " << esc(it->first) << " of " << path << " may no longer");
          a.revoked = *it;
          a.hasRevoked = true;
          a.accepted.erase(it);
        } else {
          const Pair p = a.hasRevoked ? a.revoked : Pair{word(s, false), word(s, true)};
          PBT_NOTE(s, "user " << esc(p.first) << " of " << path << " may");
          a.accepted.insert(p);
        }
        s.cls("changed mind");
        break;
      }
      case 6: {  // the same again and again
        if (!current.count(path)) break;
        const auto a = current[path];
        bool may = false;
        std::string h;
        {
          std::lock_guard<std::mutex> l(a->m);
          if (s.chance(1, 3) && !a->accepted.empty()) {
            may = true;
            h = "Basic " + encode64(a->accepted.begin()->first + ":" + a->accepted.begin()->second);
          } else if (s.coin()) {
            h = "Basic " + encode64("nobody:wrong");
            may = a->accepted.count({"nobody", "wrong"}) > 0;
          }
        }
        const size_t n = 1 + s.draw(s.chance(1, 3) ? 300 : 80);
        PBT_NOTE(s, n << " times GET " << path << " with " << esc(h));
        for (size_t k = 0; k < n; ++k) {
          const auto r = httpc::get(port, path, h.empty() ? h : "Authorization: " + h + "\r\n");
          const std::string what = "GET " + path + " with " + esc(h) + " (number " + std::to_string(k + 1) + " in a row)";
          PBT_CHECK(r.complete, what << ": " << r.error);
          PBT_CHECK(r.status == (may ? 200 : 401), what << ": status " << r.status);
          if (may) {
            std::vector<std::string> blocks;
            if (filled.count(path)) blocks.push_back(textOf(*thing));
            consume(metricsText(r, false, what), blocks, what);
          } else {
            PBT_CHECK(!leaks(r.body), what << ": metrics are delivered");
          }
        }
        std::lock_guard<std::mutex> l(a->m);
        PBT_CHECK(a->seen.size() == (h.empty() ? 0 : n), "the callback is asked " << a->seen.size() << " times for " << n << " requests");
        a->seen.clear();
        s.cls("again and again");
        break;
      }
      default: {  // other methods, HTTP/1.0
        if (!current.count(path)) break;
        static const char* methods[] = {"GET", "POST", "HEAD", "PUT", "OPTIONS", "get", "TRACE"};
        const std::string m = methods[s.draw(7)];
        PBT_NOTE(s, m << " " << path << " by HTTP/1.0 without credentials");
        httpc::Conn c(port);
        c.send(m + " " + path + " HTTP/1.0\r\n\r\n");
        PBT_CHECK(!leaks(c.rest()), m << " " << path << " without credentials delivers metrics");
        break;
      }
    }
  }
  if (accepted) s.cls("accepted");
  if (rejected) s.cls("rejected");
  if (current.size() > 1) s.cls("several protected paths");
  if (protectedRequests) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
