// C13: a registry is a map from names to families.
#include <map>
#include <memory>
#include <stdexcept>

#include "kinds.h"

using namespace prometheus;
using kinds::Kind;
using kinds::State;
using pbt::esc;
using pbt::Source;

namespace {

struct FamBase {
  std::string name, help;
  Labels constant;
  virtual ~FamBase() = default;
  virtual const char* kind() const = 0;
  virtual unsigned index() const = 0;
  virtual void* address() const = 0;
  virtual void add(Source& s) = 0;
  virtual void update(Source& s) = 0;
  virtual void drop(Source& s) = 0;
  virtual bool removeFrom(Registry& r) = 0;
  virtual size_t size() const = 0;
  virtual void compare(const MetricFamily& f) const = 0;
};

template <class T>
struct Fam : FamBase {
  using K = Kind<T>;
  Family<T>* f = nullptr;
  std::map<Labels, std::pair<T*, State>> metrics;
  const char* kind() const override { return K::name; }
  unsigned index() const override {
    switch (K::type) {
      case MetricType::Counter: return 0;
      case MetricType::Gauge: return 1;
      case MetricType::Info: return 2;
      case MetricType::Histogram: return 3;
      default: return 4;
    }
  }
  void* address() const override { return f; }
  void add(Source& s) override {
    Labels l;
    static const char* names[] = {"a", "b"};
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; ++i) l[names[s.draw(2)]] = std::to_string(s.draw(3));
    const int arg = static_cast<int>(s.draw(2));
    T& m = K::add(*f, l, arg);
    auto it = metrics.find(l);
    if (it == metrics.end()) {
      metrics[l] = {&m, K::initial(arg)};
    } else {
      PBT_CHECK(it->second.first == &m, "another metric for the same labels");
    }
  }
  void update(Source& s) override {
    for (auto& m : metrics) {
      if (s.coin()) K::update(*m.second.first, m.second.second, static_cast<int>(s.range(-9, 9)));
    }
  }
  void drop(Source& s) override {
    if (metrics.empty()) return;
    auto it = metrics.begin();
    std::advance(it, static_cast<long>(s.draw(metrics.size())));
    f->Remove(it->second.first);
    metrics.erase(it);
  }
  bool removeFrom(Registry& r) override { return r.Remove(*f); }
  size_t size() const override { return metrics.size(); }
  void compare(const MetricFamily& c) const override {
    PBT_CHECK(c.type == K::type, "type of " << name);
    PBT_CHECK(c.help == help, "help of " << name << " is " << esc(c.help) << " instead of " << esc(help));
    PBT_CHECK(c.metric.size() == metrics.size(),
              c.metric.size() << " metrics in " << name << " instead of " << metrics.size());
    std::map<std::string, const State*> want;
    for (auto& m : metrics) want[kinds::keyOf(kinds::expected(constant, m.first))] = &m.second.second;
    for (auto& m : c.metric) {
      auto it = want.find(kinds::keyOf(m.label));
      PBT_CHECK(it != want.end(), "unexpected metric in " << name);
      PBT_CHECK(K::matches(m, *it->second), "value of a metric in " << name);
      want.erase(it);
    }
  }
};

struct Reg {
  Registry::InsertBehavior mode;
  std::unique_ptr<Registry> r;
  std::map<std::string, std::unique_ptr<FamBase>> fams;
};

template <class T>
void registerOne(Source& s, Reg& g, const std::string& name, const std::string& help,
                 const Labels& constant) {
  using K = Kind<T>;
  const bool merge = g.mode == Registry::InsertBehavior::Merge;
  auto it = g.fams.find(name);
  bool expectThrow = false, existing = false;
  if (it != g.fams.end()) {
    existing = std::string(it->second->kind()) == K::name && merge && it->second->constant == constant;
    expectThrow = !existing;
  }
  const bool invalid = name == "0bad" || constant.count("1x");
  if (invalid && !existing) expectThrow = true;
  PBT_NOTE(s, "register " << K::name << " " << name << gen::show(constant)
               << (expectThrow ? " (to be rejected)" : existing ? " (again)" : ""));
  Family<T>* f = nullptr;
  bool threw = false;
  try {
    auto b = K::builder();
    b.Name(name).Help(help).Labels(constant);
    f = &b.Register(*g.r);
    if (merge && s.chance(1, 8)) {
      PBT_CHECK(&b.Register(*g.r) == f, "registering twice yields two families");
      s.cls("builder used twice");
    }
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  PBT_CHECK(threw == expectThrow, K::name << " " << name << gen::show(constant) << " is "
                                          << (threw ? "rejected" : "accepted"));
  if (threw) {
    s.cls(it != g.fams.end() ? (std::string(it->second->kind()) == K::name ? "rejected: same type" : "rejected: other type")
                             : "rejected: invalid");
    return;
  }
  if (existing) {
    PBT_CHECK(f == it->second->address(), "merging yields another family");
    s.cls("merged");
    return;
  }
  for (auto& o : g.fams) PBT_CHECK(o.second->address() != f, "family shared with " << o.first);
  auto n = std::unique_ptr<Fam<T>>(new Fam<T>);
  n->name = name;
  n->help = help;
  n->constant = constant;
  n->f = f;
  PBT_CHECK(f->GetName() == name, "name of the family is " << esc(f->GetName()));
  PBT_CHECK(f->GetConstantLabels() == constant, "constant labels of the family are "
            << gen::show(f->GetConstantLabels()) << " instead of " << gen::show(constant));
  g.fams[name] = std::move(n);
}

void verify(const Reg& g) {
  auto c = g.r->Collect();
  std::map<std::string, int> seen;
  for (auto& f : c) {
    if (f.metric.empty()) continue;
    PBT_CHECK(++seen[f.name] == 1, "family " << f.name << " collected twice");
    auto it = g.fams.find(f.name);
    PBT_CHECK(it != g.fams.end(), "unknown family " << f.name << " collected");
    it->second->compare(f);
  }
  for (auto& f : g.fams) {
    PBT_CHECK(seen.count(f.first) == (f.second->size() > 0), "family " << f.first << " with "
              << f.second->size() << " metrics is " << (seen.count(f.first) ? "" : "not ") << "collected");
  }
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  std::vector<Reg> regs(1 + s.draw(2));
  for (auto& g : regs) {
    g.mode = s.coin() ? Registry::InsertBehavior::Throw : Registry::InsertBehavior::Merge;
    if (g.mode == Registry::InsertBehavior::Merge && s.coin()) {
      g.r.reset(new Registry());
    } else {
      g.r.reset(new Registry(g.mode));
    }
    s.cls(g.mode == Registry::InsertBehavior::Merge ? "merge" : "throw");
  }
  static const char* names[] = {"m", "n", "m_total", "m2", "M", "x:y", "mm", "0bad"};
  const size_t steps = s.length(60);
  size_t registered = 0, removed = 0, again = 0;
  std::map<std::string, bool> freed;
  for (size_t i = 0; i < steps; ++i) {
    Reg& g = regs[s.draw(regs.size())];
    auto pick = [&]() -> FamBase* {
      if (g.fams.empty()) return nullptr;
      auto it = g.fams.begin();
      std::advance(it, static_cast<long>(s.draw(g.fams.size())));
      return it->second.get();
    };
    switch (s.weighted({18, 12, 9, 6, 3, 6, 3, 1})) {
      case 7: {  // many families
        const size_t n = gen::bulk(s, s.chance(1, 6) ? 3000 : 400, 2), kind = s.draw(5);
        if (!n) break;
        PBT_NOTE(s, "register f0 to f" << n - 1);
        for (size_t k = 0; k < n; ++k) {
          const std::string name = "f" + std::to_string(k);
          if (g.fams.count(name)) continue;
          switch (kind) {
            case 0: registerOne<Counter>(s, g, name, "", {}); break;
            case 1: registerOne<Gauge>(s, g, name, "", {}); break;
            case 2: registerOne<Info>(s, g, name, "", {}); break;
            case 3: registerOne<Histogram>(s, g, name, "", {}); break;
            default: registerOne<Summary>(s, g, name, "", {}); break;
          }
          if (k % 3 == 0) g.fams[name]->add(s);
        }
        s.cls("many families");
        break;
      }
      case 0: {
        std::string name = s.chance(1, 10) ? "f" + std::to_string(s.draw(s.coin() ? 60 : 400)) : names[s.draw(8)];
        std::string help = s.draw(3) ? gen::text(s, 5) : "";
        Labels constant;
        unsigned kind = static_cast<unsigned>(s.draw(5));
        static const char* cn[] = {"c", "d", "cc", "e", "C"};
        static const char* cv[] = {"0", "1", "", "c", "01", "d"};
        const size_t labels = s.draw(4);
        for (size_t k = 0; k < labels; ++k) constant[cn[s.draw(5)]] = cv[s.draw(6)];
        auto old = g.fams.find(name);
        if (old != g.fams.end() && s.coin()) {  // nearly the existing family
          kind = old->second->index();
          constant = old->second->constant;
          switch (s.draw(6)) {
            case 0: break;
            case 1:
              if (!constant.empty()) {
                auto it = constant.begin();
                std::advance(it, static_cast<long>(s.draw(constant.size())));
                constant.erase(it);
              }
              break;
            case 2: constant[cn[s.draw(5)]] = cv[s.draw(6)]; break;
            case 3:
              if (!constant.empty()) constant.begin()->second += "x";
              break;
            case 4:
              if (!constant.empty()) constant.rbegin()->second = cv[s.draw(6)];
              break;
            default:
              if (constant.size() > 1) std::swap(constant.begin()->second, constant.rbegin()->second);
              break;
          }
          s.cls(constant == old->second->constant ? "same labels" : "nearly the same labels");
        }
        if (s.chance(1, 12)) constant["1x"] = "";
        if (freed[name]) ++again;
        switch (kind) {
          case 0: registerOne<Counter>(s, g, name, help, constant); break;
          case 1: registerOne<Gauge>(s, g, name, help, constant); break;
          case 2: registerOne<Info>(s, g, name, help, constant); break;
          case 3: registerOne<Histogram>(s, g, name, help, constant); break;
          default: registerOne<Summary>(s, g, name, help, constant); break;
        }
        ++registered;
        break;
      }
      case 1:
        if (auto* f = pick()) f->add(s);
        break;
      case 2:
        if (auto* f = pick()) f->update(s);
        break;
      case 3:
        if (auto* f = pick()) {
          PBT_NOTE(s, "remove family " << f->name);
          PBT_CHECK(f->removeFrom(*g.r), "removing " << f->name << " does not find it");
          freed[f->name] = true;
          g.fams.erase(std::string(f->name));
          ++removed;
        }
        break;
      case 4:
        if (regs.size() > 1) {
          Reg& o = &g == &regs[0] ? regs[1] : regs[0];
          if (auto* f = pick()) {
            PBT_CHECK(!f->removeFrom(*o.r), "removed a family of another registry");
            s.cls("remove from the wrong registry");
          }
        }
        break;
      case 5: verify(g); break;
      default:
        if (auto* f = pick()) f->drop(s);
        break;
    }
  }
  for (auto& g : regs) verify(g);
  if (removed) s.cls("removal");
  if (again) s.cls("registration of a freed name");
  if (registered > 2) s.nontrivial();
  // families go before the registries, as their references do not own
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
