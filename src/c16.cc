// C16: framing, compression and the counters of the endpoint.
#include <signal.h>

#include <algorithm>
#include <atomic>
#include <chrono>

#include "locales.h"
#include "pullutil.h"

using namespace prometheus;
using namespace pullutil;
using pbt::Source;

namespace {

std::string lower(std::string s) {
  for (auto& c : s) c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
  return s;
}

// does the header list gzip: 0 no, 1 yes, 2 malformed (anything goes)
int lists(const std::string& header) {
#ifdef NO_GZIP
  return 0;
#endif
  size_t at = 0;
  int result = 0;
  const std::string h = lower(header) + ",";
  while (at < h.size()) {
    const size_t comma = h.find(',', at);
    std::string item = h.substr(at, comma - at);
    at = comma + 1;
    auto trim = [](std::string t) {
      while (!t.empty() && (t[0] == ' ' || t[0] == '\t')) t.erase(0, 1);
      while (!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back();
      return t;
    };
    const size_t semi = item.find(';');
    const std::string name = trim(item.substr(0, semi));
    if (name.find_first_of(" \t\"") != std::string::npos) return 2;
    if (name != "gzip" && name != "x-gzip" && name != "*") continue;
    if (semi == std::string::npos) {
      result = 1;
      continue;
    }
    const std::string q = trim(item.substr(semi + 1));
    if (q.compare(0, 2, "q=") != 0) return 2;
    const std::string v = q.substr(2);
    if (v.empty() || v.find_first_not_of("0123456789.") != std::string::npos) return 2;
    if (v.find_first_not_of("0.") != std::string::npos) result = 1;
  }
  return result;
}

// must the response be compressed: gzip is listed, never refused, and nothing
// is preferred to it
bool demands(const std::string& header) {
#ifdef NO_GZIP  // built without compression
  return false;
#endif
  if (lists(header) != 1) return false;
  const std::string h = lower(header) + ",";
  bool found = false;
  for (size_t at = 0; at < h.size();) {
    const size_t comma = h.find(',', at);
    std::string item;
    for (char c : h.substr(at, comma - at)) {
      if (c != ' ' && c != '\t') item += c;
    }
    at = comma + 1;
    const size_t semi = item.find(';');
    const std::string name = item.substr(0, semi);
    if (name == "identity") return false;
    if (name != "gzip") continue;
    if (semi != std::string::npos && item.substr(semi).find_first_of("123456789") == std::string::npos) return false;
    found = true;
  }
  return found;
}

std::string acceptEncoding(Source& s) {
  static const char* whole[] = {"gzip", "gzip, deflate, br", "deflate", "identity", "", "*", "gzip;q=0", "GZIP", "gzip;q=0.0",
                                "gzip; q=0", "gzip;q=1.0, identity; q=0.5, *;q=0", "br, gzip ;q=0.1", "notgzip", "gzipped",
                                "x-gzip", "deflate, gzip", "deflate;q=1,gzip;q=0.000", "br;q=0, gzip", "gzi", "zip",
                                "gzip;q=0.001", ",,gzip", "identity,gzip;Q=0", "compress;q=0.5,gzip;q=1.0"};
  if (s.chance(2, 3)) return whole[s.draw(sizeof whole / sizeof *whole)];
  static const char* codings[] = {"gzip", "deflate", "br", "identity", "gzipx", "*", "Gzip", "zstd"};
  static const char* weights[] = {"", ";q=0", ";q=1", ";q=0.3", " ; q=0.00", ";q=0.010"};
  std::string r;
  const size_t many = gen::bulk(s, 250, 4);  // up to some 6 KB of codings or blanks
  const size_t n = 1 + s.draw(4);
  const size_t at = many ? s.draw(n + 1) : 0;
  for (size_t i = 0; i <= n; ++i) {
    if (many && i == at) {
      s.cls("long Accept-Encoding");
      const int kind = static_cast<int>(s.draw(4));
      if (i) r += ',';
      for (size_t k = 0; k < many; ++k) {
        if (kind == 0) r += "coding" + std::to_string(k) + (k % 3 ? ";q=0.5, " : ", ");
        if (kind == 1) r += " ";
        if (kind == 2) r += ",";
        if (kind == 3) r += "x";
      }
      if (kind == 3) r += ",";
    }
    if (i == n) break;
    if (i) r += s.coin() ? ", " : ",";
    r += codings[s.draw(8)];
    r += weights[s.draw(6)];
  }
  return r;
}

// one family of about the given size
MetricFamily sized(Source& s, const std::string& name, size_t size) {
  MetricFamily f = numberFamily(name, 1);
  const int kind = static_cast<int>(s.draw(3));
  uint64_t x = s.draw(1u << 30) * 2654435761u + 1;
  auto next = [&x] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x >> 11;
  };
  if (kind == 0) {
    f.help = std::string(size, 'x');
  } else if (kind == 1) {  // not compressible
    f.help.resize(size);
    for (auto& c : f.help) {
      c = static_cast<char>(next());
      if (c == '\n' || c == '\\') c = '?';
    }
  } else {  // many series
    f.metric.clear();
    const size_t n = std::min<size_t>(size, 40000) / 40 + 1;
    for (size_t i = 0; i < n; ++i) {
      ClientMetric m;
      m.label.push_back({"index", std::to_string(i)});
      m.gauge.value = static_cast<double>(next() % 1000000000) / 7;
      f.metric.push_back(m);
    }
  }
  return f;
}

size_t size(Source& s) {
  static const size_t sizes[] = {10, 100, 1000, 4096, 8192, 16384, 32768, 65536, 98304, 131072, 262144, 524288};
  switch (s.weighted({6, 6, 4, 1})) {
    case 0: return s.draw(300);
    case 1: return static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(sizes[s.draw(12)]) + s.range(-400, 40)));
    case 2: return s.draw(100000);
    default: return s.chance(1, 10) ? 17000000 + s.draw(20000000) : 1000000 + s.draw(3000000);
  }
}

using Clock = std::chrono::steady_clock;

// a collectable that takes its time
struct Slow : Fixed {
  std::atomic<unsigned> delay{0};  // us
  std::vector<MetricFamily> Collect() const override {
    const auto until = Clock::now() + std::chrono::microseconds(delay.load());
    while (delay && Clock::now() < until) usleep(static_cast<useconds_t>(delay.load()));
    return Fixed::Collect();
  }
};

}  // namespace

namespace pbt {

void pbt_init() { signal(SIGPIPE, SIG_IGN); }

void pbt_case(Source& s) {
  const locales::Scope locale(s, 4);
  const bool exact = s.chance(3, 4);  // one worker: one request after the other
  const bool keep = s.coin();
  const auto start = Clock::now();
  Exposer exposer(std::vector<std::string>{"listening_ports", "127.0.0.1:0", "num_threads", exact ? "1" : "3",
                                           "enable_keep_alive", keep ? "yes" : "no", "keep_alive_timeout_ms", "20000"});
  const int port = exposer.GetListeningPorts().at(0);
  std::vector<std::shared_ptr<Slow>> things;
  const size_t n = s.draw(3);
  for (size_t i = 0; i < n; ++i) {
    things.push_back(std::make_shared<Slow>());
    exposer.RegisterCollectable(things.back());
  }
  if (n == 0) exposer.RegisterCollectable(std::weak_ptr<Collectable>{});  // there is an endpoint
  uint64_t scrapes = 0, compressed = 0, large = 0;
  double bytes = 0, lastSum = 0, atLeast = 0;

  auto fill = [&] {
    for (size_t i = 0; i < n; ++i) {
      const std::string name = "c" + std::to_string(i);
      things[i]->delay = s.chance(1, 10) ? static_cast<unsigned>(s.draw(4000)) : 0;
      switch (s.draw(4)) {
        case 0: things[i]->families = uniqueFamilies(s, name, 2); break;
        case 1: things[i]->families.clear(); break;
        default: {
          const size_t z = size(s);
          if (z > 30000) ++large;
          PBT_NOTE(s, "content " << i << " of about " << z);
          things[i]->families = {sized(s, name, z)};
        }
      }
    }
  };
  auto evaluate = [&](const httpc::Response& r, const std::string& accept, bool has) {
    const std::string what = "request " + std::to_string(scrapes) + " with Accept-Encoding " + esc(accept);
    const bool may = has && lists(accept) != 0;
    const std::string text = metricsText(r, may, what);
    if (text.size() != r.body.size() || !r.all("content-encoding").empty()) ++compressed;
    PBT_CHECK(!has || !demands(accept) || !r.all("content-encoding").empty(), what << ": not compressed");
    std::vector<std::string> blocks;
    double took = 0;
    for (auto& t : things) {
      took += t->delay.load();
      blocks.push_back(TextSerializer{}.Serialize(t->families));
    }
    const Own own = consume(text, blocks, what);
    PBT_NOTE(s, "  " << r.body.size() << " bytes for " << text.size());
    if (exact) {
      PBT_CHECK(own.scrapes == scrapes, what << ": " << own.scrapes << " scrapes are counted instead of " << scrapes);
      PBT_CHECK(own.latencies == scrapes, what << ": " << own.latencies << " latencies instead of " << scrapes);
      PBT_CHECK(own.bytes == bytes, what << ": " << own.bytes << " bytes are counted instead of " << bytes);
      const double elapsed = static_cast<double>(
          std::chrono::duration_cast<std::chrono::microseconds>(Clock::now() - start).count());
      PBT_CHECK(own.latencySum >= lastSum && own.latencySum <= elapsed,
                what << ": latencies of " << own.latencySum << " after " << lastSum << " within " << elapsed);
      // truncation may cost a microsecond per scrape
      PBT_CHECK(own.latencySum + static_cast<double>(scrapes) >= atLeast,
                what << ": latencies of " << own.latencySum << " us where collecting alone took " << atLeast);
      lastSum = own.latencySum;
    } else {
      PBT_CHECK(own.scrapes <= scrapes && own.latencies <= scrapes && own.bytes <= bytes,
                what << ": " << own.scrapes << " scrapes, " << own.latencies << " latencies, " << own.bytes
                     << " bytes counted after " << scrapes << " and " << bytes);
    }
    atLeast += took;
    ++scrapes;
    bytes += static_cast<double>(r.body.size());
    return own;
  };
  auto request = [&](const std::string& version, std::string* accept, bool* has, bool close) {
    *has = s.chance(3, 4);
    *accept = acceptEncoding(s);
    std::string h = "GET /metrics HTTP/" + version + "\r\nHost: x\r\n";
    if (*has) h += (s.coin() ? "Accept-Encoding: " : "accept-encoding:") + *accept + "\r\n";
    if (close) h += "Connection: close\r\n";
    PBT_NOTE(s, "GET HTTP/" << version << (*has ? " accepts " + *accept : "") << (close ? " close" : ""));
    return h + "\r\n";
  };

  const size_t rounds = 1 + s.length(8);
  for (size_t round = 0; round < rounds; ++round) {
    fill();
    std::string accept;
    bool has;
    switch (s.weighted({20, 15, 5, 1, 5, 7})) {
      case 0: {  // one request per connection
        httpc::Conn c(port);
        PBT_CHECK(c.connected(), "no connection");
        c.send(request(s.chance(1, 6) ? "1.0" : "1.1", &accept, &has, true));
        const auto r = c.receive();
        const std::string tail = c.rest();
        PBT_CHECK(tail.empty(), tail.size() << " bytes after the response");
        evaluate(r, accept, has);
        break;
      }
      case 1: {  // several requests on a kept connection
        if (!keep) break;
        httpc::Conn c(port);
        PBT_CHECK(c.connected(), "no connection");
        const size_t k = 2 + s.draw(4);
        for (size_t i = 0; i < k; ++i) {
          if (i && s.coin()) fill();
          c.send(request("1.1", &accept, &has, i + 1 == k));
          evaluate(c.receive(), accept, has);
          PBT_CHECK(c.pending().empty(), c.pending().size() << " bytes after a response");
        }
        PBT_CHECK(c.rest().empty(), "bytes after the last response");
        s.cls("kept connection");
        break;
      }
      case 2: {  // pipelined
        if (!keep) break;
        httpc::Conn c(port);
        PBT_CHECK(c.connected(), "no connection");
        std::vector<std::pair<std::string, bool>> sent;
        std::string all;
        const size_t k = 2 + s.draw(2);
        for (size_t i = 0; i < k; ++i) {
          all += request("1.1", &accept, &has, i + 1 == k);
          sent.push_back({accept, has});
        }
        c.send(all);
        for (auto& a : sent) evaluate(c.receive(), a.first, a.second);
        PBT_CHECK(c.rest().empty(), "bytes after the last response");
        s.cls("pipelined");
        break;
      }
      case 3: {  // slow reader
        httpc::Conn c(port, 4096);
        PBT_CHECK(c.connected(), "no connection");
        c.send(request("1.1", &accept, &has, true));
        const auto r = c.receive(s.draw(3) * 100, 2000 + s.draw(30000));
        PBT_CHECK(c.rest().empty(), "bytes after the response");
        evaluate(r, accept, has);
        s.cls("slow reader");
        break;
      }
      case 5: {  // a response body of exactly a round size
        if (n == 0) break;
        static const size_t units[] = {65536, 32768, 16384, 8192, 4096, 1024, 1000, 10000, 100000};
        const size_t unit = units[s.draw(9)];
        const size_t target = unit * (1 + s.draw(s.chance(1, 4) ? 10 : 2));
        has = s.coin();
        accept = has ? "gzip" : "";
        const bool random = has || s.coin();
        uint64_t x = s.draw(1u << 30) * 2654435761u + 1;
        std::string pool(target + 2000, 'x');
        for (auto& c : pool) {
          if (!random) break;
          x = x * 6364136223846793005ull + 1442695040888963407ull;
          c = static_cast<char>(x >> 56);
          if (c == '\n' || c == '\\') c = '?';
        }
        for (auto& t : things) t->families.clear();
        int64_t pad = static_cast<int64_t>(target) - (has ? 400 : 1100);
        PBT_NOTE(s, "aiming at " << target << " bytes" << (has ? " of gzip" : ""));
        for (int k = 0; k < 7; ++k) {
          pad = std::max<int64_t>(1, std::min<int64_t>(pad, static_cast<int64_t>(pool.size())));
          things[0]->families = {numberFamily("c0", 1)};
          things[0]->families[0].help = pool.substr(0, static_cast<size_t>(pad));
          httpc::Conn c(port);
          PBT_CHECK(c.connected(), "no connection");
          c.send(std::string("GET /metrics HTTP/1.1\r\nHost: x\r\n") + (has ? "Accept-Encoding: gzip\r\n" : "") +
                 "Connection: close\r\n\r\n");
          const auto r = c.receive();
          PBT_CHECK(c.rest().empty(), "bytes after the response");
          evaluate(r, accept, has);
          if (r.body.size() == target) {
            s.cls(has ? "exact size of gzip" : "exact size");
            break;
          }
          pad += static_cast<int64_t>(target) - static_cast<int64_t>(r.body.size());
        }
        break;
      }
      default: {  // no scrape
        static const char* methods[] = {"POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"};
        const std::string m = methods[s.draw(6)];
        PBT_NOTE(s, m);
        httpc::Conn c(port);
        PBT_CHECK(c.connected(), "no connection");
        c.send(m + " /metrics HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
        c.rest();
        s.cls("other method");
        break;
      }
    }
  }
  if (!exact) {  // in the end everything is counted
    for (int i = 0;; ++i) {
      usleep(static_cast<useconds_t>(200 * (i + 1)));
      const uint64_t before = scrapes;
      const double b = bytes;
      const Own own = evaluate(httpc::get(port, "/metrics"), "", false);
      if (own.scrapes == before && own.latencies == before && own.bytes == b) break;
      PBT_CHECK(i < 100, "after " << before << " scrapes and " << b << " bytes only " << own.scrapes << " scrapes, "
                                  << own.latencies << " latencies and " << own.bytes << " bytes are counted");
    }
  }
  if (compressed) s.cls("compressed");
  if (large) s.cls("large");
  if (scrapes > 1 && n > 0) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
