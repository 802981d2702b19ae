// C12: which names are accepted, and that rejections leave no trace.
#include <memory>
#include <stdexcept>

#include "kinds.h"
#include "locales.h"
#include "prometheus/check_names.h"

using namespace prometheus;
using kinds::Kind;
using pbt::esc;
using pbt::Source;

namespace {

bool alpha(unsigned char c) {
  static const std::string a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  return c && a.find(static_cast<char>(c)) != std::string::npos;
}
bool digit(unsigned char c) { return c && std::string("0123456789").find(static_cast<char>(c)) != std::string::npos; }

// [a-zA-Z_][a-zA-Z0-9_]*, with ':' for metrics, and not beginning with "__"
bool grammar(const std::string& n, bool colon) {
  if (n.empty() || n.substr(0, 2) == "__") return false;
  for (size_t i = 0; i < n.size(); ++i) {
    const auto c = static_cast<unsigned char>(n[i]);
    const bool ok = alpha(c) || c == '_' || (colon && c == ':') || (i > 0 && digit(c));
    if (!ok) return false;
  }
  return true;
}

bool validLabel(const std::string& n, MetricType t) {
  if (t == MetricType::Histogram && n == "le") return false;
  if (t == MetricType::Summary && n == "quantile") return false;
  return grammar(n, false);
}

std::string candidate(Source& s) {
  static const std::string fixed[] = {
      "a", "", "_", "__", "___", "_a", "__a", "a__", "le", "quantile", "Le", "lE", "le_", "_le", "quantile_",
      "quantiles", "ale", ":", "::", "a:b", ":a", "1", "1a", "a1", "a-b", "a.b", "a b", " a", "a ", "\n", "a\n",
      std::string(1, '\0'), std::string("a\0", 2), std::string("le\0", 3), "\xc3\xa4", "a\xc3\xa4", "a{", "@", "[", "`", "{",
      "/", "0", "9", "Z", "z", "A", "_1", "_:", ":_", "_:_", "__:"};
  switch (s.weighted({3, 3, 3, 2})) {
    case 0: return fixed[s.draw(sizeof fixed / sizeof *fixed)];
    case 1: {  // a valid one with one byte replaced or inserted
      std::string r;
      size_t n = s.length(12);
      for (size_t i = 0; i <= n; ++i) r += "abz_AZ09:"[s.draw(9)];
      size_t at = s.draw(r.size() + 1);
      char c = static_cast<char>(s.draw(256));
      if (at < r.size() && s.coin()) {
        r[at] = c;
      } else {
        r.insert(r.begin() + static_cast<long>(at), c);
      }
      return r;
    }
    case 2: {
      std::string r;
      size_t n = s.length(200);
      for (size_t i = 0; i < n; ++i) r += "abz_AZ09"[s.draw(8)];
      if (const size_t more = gen::bulk(s, 70000, 10)) {
        r.append(more, 'x');
        if (s.coin()) r[s.draw(r.size())] = "a_0-:."[s.draw(6)];
      }
      return r;
    }
    default: {
      std::string r;
      size_t n = s.length(8);
      for (size_t i = 0; i < n; ++i) r += static_cast<char>(s.draw(256));
      return r;
    }
  }
}

template <class T>
void registering(Source& s) {
  using K = Kind<T>;
  s.cls(K::name);
  std::string name = s.coin() ? candidate(s) : "m";
  Labels constant, own;
  // good ones with at most one doubtful one among them, or doubtful ones
  const bool mostlyGood = s.chance(1, 3);
  size_t n = mostlyGood ? s.draw(12) : s.draw(3);
  for (size_t i = 0; i < n; ++i) {
    constant[!mostlyGood && s.coin() ? candidate(s) : gen::labelName(s)] = "c" + std::to_string(i);
  }
  if (mostlyGood && s.chance(2, 3)) constant[s.coin() ? (s.coin() ? "le" : "quantile") : candidate(s)] = "";
  if (mostlyGood) name = "m";
  PBT_NOTE(s, K::name << " " << esc(name) << " constant " << gen::show(constant));
  bool okName = grammar(name, true);
  bool okConst = true;
  for (auto& p : constant) okConst = okConst && validLabel(p.first, K::type);
  Registry reg;
  auto& base = BuildGauge().Name("base_of_all_").Register(reg);
  base.Add({}).Set(7);
  Family<T>* f = nullptr;
  std::unique_ptr<Family<T>> alone;
  const bool viaRegistry = s.chance(2, 3);
  bool threw = false;
  try {
    if (viaRegistry) {
      f = &K::builder().Name(name).Help("h").Labels(constant).Register(reg);
    } else {
      alone.reset(new Family<T>(name, "h", constant));
      f = alone.get();
    }
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  const bool ok = okName && okConst;
  PBT_CHECK(threw == !ok, "family " << esc(name) << " with labels " << gen::show(constant) << " is "
                                    << (threw ? "rejected" : "accepted"));
  s.cls(ok ? "family accepted" : "family rejected");
  if (threw) {
    auto c = reg.Collect();
    PBT_CHECK(c.size() == 1 && c[0].name == "base_of_all_" && c[0].metric.size() == 1,
              "a rejected family leaves " << c.size() << " families");
    if (okName) {
      // the name is still free
      auto& g = K::builder().Name(name).Help("h2").Register(reg);
      PBT_CHECK(g.GetConstantLabels().empty(), "a rejected family was registered");
    }
    return;
  }
  std::map<Labels, bool> present;
  size_t adds = 1 + s.draw(5);
  for (size_t a = 0; a < adds; ++a) {
    Labels l;
    auto doubtful = [&]() -> std::string {
      if (!constant.empty() && s.chance(1, 3)) {
        auto it = constant.begin();
        std::advance(it, static_cast<long>(s.draw(constant.size())));
        return it->first;
      }
      return s.chance(1, 3) ? (s.coin() ? "le" : "quantile") : candidate(s);
    };
    const bool good = s.coin();
    size_t k = s.draw(good ? 16 : 4);
    if (const size_t more = good ? gen::bulk(s, 200, 12) : 0) k = more;
    for (size_t i = 0; i < k; ++i) {
      std::string ln = good || s.coin() ? gen::labelName(s) : doubtful();
      if (k > 16) ln += std::to_string(i);
      l[ln] = s.coin() ? "v" : "";
    }
    if (good && s.coin()) l[doubtful()] = "v";
    bool valid = true;
    for (auto& p : l) valid = valid && validLabel(p.first, K::type) && !constant.count(p.first);
    PBT_NOTE(s, "add " << gen::show(l));
    bool t = false;
    try {
      K::add(*f, l, 0);
    } catch (const std::invalid_argument&) {
      t = true;
    }
    PBT_CHECK(t == !valid, "labels " << gen::show(l) << " are " << (t ? "rejected" : "accepted"));
    if (valid) present[l] = true;
    PBT_CHECK(f->Has(l) == valid, "presence of " << gen::show(l) << " is " << f->Has(l));
    s.cls(valid ? "labels accepted" : "labels rejected");
  }
  auto c = f->Collect();
  size_t have = c.empty() ? 0 : c[0].metric.size();
  PBT_CHECK(have == present.size(), have << " metrics instead of " << present.size());
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  const locales::Scope locale(s, 4);
  s.nontrivial();
  switch (s.draw(10)) {
    case 0: case 1: registering<Counter>(s); return;
    case 2: registering<Gauge>(s); return;
    case 3: registering<Info>(s); return;
    case 4: registering<Histogram>(s); return;
    case 5: registering<Summary>(s); return;
    default: break;
  }
  std::string n = candidate(s);
  PBT_NOTE(s, "name " << esc(n));
  PBT_CHECK(CheckMetricName(n) == grammar(n, true),
            "metric name " << esc(n) << " is " << (CheckMetricName(n) ? "accepted" : "rejected"));
  for (auto t : {MetricType::Counter, MetricType::Gauge, MetricType::Summary, MetricType::Untyped,
                 MetricType::Histogram, MetricType::Info}) {
    PBT_CHECK(CheckLabelName(n, t) == validLabel(n, t),
              "label name " << esc(n) << " of a " << gen::typeName(t) << " is "
                            << (CheckLabelName(n, t) ? "accepted" : "rejected"));
  }
  s.cls(grammar(n, false) ? "valid" : grammar(n, true) ? "valid for metrics" : "invalid");
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
