// C11: a family is a map from label sets to metrics.
#include <map>
#include <memory>
#include <set>

#include "kinds.h"

using namespace prometheus;
using kinds::Kind;
using kinds::State;
using pbt::Source;

namespace {

using pbt::esc;

template <class T>
void familyCase(Source& s) {
  using K = Kind<T>;
  s.cls(K::name);
  Labels constant;
  const size_t nc = s.draw(3);
  static const char* constNames[] = {"k1", "k2", "zz"};
  for (size_t i = 0; i < nc; ++i) constant[constNames[s.draw(3)]] = gen::text(s, 6);
  const std::string help = gen::text(s, 10);
  Registry reg;
  auto own = std::unique_ptr<Family<T>>();
  Family<T>* f;
  if (s.coin()) {
    own.reset(new Family<T>("m", help, constant));
    f = own.get();
  } else {
    f = &K::builder().Name("m").Help(help).Labels(constant).Register(reg);
  }
  // a second one, which nobody may touch
  Family<T> other("o", "", {});
  T& stranger = K::add(other, {{"a", "b"}}, 0);
  State strangerState = K::initial(0);
  K::update(stranger, strangerState, 3);

  struct Entry {
    T* p;
    State st;
  };
  std::map<Labels, Entry> model;
  PBT_NOTE(s, K::name << " constant " << gen::show(constant));

  auto verify = [&] {
    PBT_CHECK(f->GetName() == "m", "name is " << f->GetName());
    PBT_CHECK(f->GetConstantLabels() == constant, "constant labels are " << gen::show(f->GetConstantLabels()));
    auto c = f->Collect();
    if (model.empty()) {
      PBT_CHECK(c.empty() || (c.size() == 1 && c[0].metric.empty()),
                "an empty family delivers " << c.size() << " families");
      return;
    }
    PBT_CHECK(c.size() == 1, "collects " << c.size() << " families");
    PBT_CHECK(c[0].name == "m" && c[0].help == help && c[0].type == K::type,
              "name, help or type of the collected family");
    PBT_CHECK(c[0].metric.size() == model.size(),
              c[0].metric.size() << " metrics collected, " << model.size() << " present");
    std::map<std::string, const Entry*> want;
    for (auto& e : model) want[kinds::keyOf(kinds::expected(constant, e.first))] = &e.second;
    for (auto& m : c[0].metric) {
      auto it = want.find(kinds::keyOf(m.label));
      PBT_CHECK(it != want.end(), "unexpected or repeated metric " << esc(kinds::keyOf(m.label)));
      PBT_CHECK(K::matches(m, it->second->st), "metric " << esc(kinds::keyOf(m.label)) << " holds "
                << K::read(m).value << "/" << K::read(m).count << " instead of "
                << it->second->st.value << "/" << it->second->st.count);
      want.erase(it);
    }
  };

  const bool many = s.chance(1, 12);  // until the container grows
  const size_t steps = many ? 200 + s.draw(400) : s.length(50);
  if (const size_t bulk = many ? gen::bulk(s, s.chance(1, 12) ? 40000 : 3000, 2) : 0) {
    std::set<T*> all;
    for (size_t k = 0; k < bulk; ++k) {
      const Labels l{{"n", std::to_string(k)}};
      T& m = K::add(*f, l, 0);
      PBT_CHECK(all.insert(&m).second, gen::show(l) << " shares the metric of another label set");
      model[l] = {&m, K::initial(0)};
    }
    PBT_NOTE(s, "add n=0 to n=" << bulk - 1);
    s.cls("more than a few");
  }
  size_t readds = 0, removed = 0, i = 0;
  bool shared = false;
  for (i = 0; i < steps; ++i) {
    switch (s.weighted({6, 4, 2, 2, 2, 1, 1})) {
      case 0: {
        Labels l;
        if (many) {
          l["n"] = std::to_string(s.draw(1000));
        } else {
          l = kinds::confusable(s, true);
          if (!model.empty() && s.chance(1, 3)) {
            auto it = model.begin();
            std::advance(it, static_cast<long>(s.draw(model.size())));
            l = kinds::joined(s, it->first);
          }
        }
        const int arg = static_cast<int>(s.draw(3));
        T& m = K::add(*f, l, arg);
        auto it = model.find(l);
        PBT_NOTE(s, "add " << gen::show(l));
        if (it != model.end()) {
          PBT_CHECK(&m == it->second.p, "adding " << gen::show(l) << " again returns another metric");
          shared = true;
        } else {
          for (auto& e : model) {
            PBT_CHECK(e.second.p != &m, gen::show(l) << " shares the metric of " << gen::show(e.first));
          }
          model[l] = {&m, K::initial(arg)};
          if (removed) ++readds;
        }
        break;
      }
      case 1: {
        if (model.empty()) break;
        auto it = model.begin();
        std::advance(it, static_cast<long>(s.draw(model.size())));
        const int v = static_cast<int>(s.range(-100, 100));
        K::update(*it->second.p, it->second.st, v);
        PBT_NOTE(s, "update " << gen::show(it->first) << " by " << v);
        break;
      }
      case 2: {
        Labels l = kinds::confusable(s, true);
        if (!model.empty() && s.chance(1, 3)) {
          auto it = model.begin();
          std::advance(it, static_cast<long>(s.draw(model.size())));
          l = kinds::joined(s, it->first);
        }
        const bool has = f->Has(l);
        PBT_CHECK(has == (model.count(l) > 0), "presence of " << gen::show(l) << " is " << has);
        if (!model.empty()) {
          auto it = model.begin();
          std::advance(it, static_cast<long>(s.draw(model.size())));
          PBT_CHECK(f->Has(it->first), gen::show(it->first) << " is not present");
        }
        break;
      }
      case 3: {
        if (model.empty()) break;
        auto it = model.begin();
        std::advance(it, static_cast<long>(s.draw(model.size())));
        PBT_NOTE(s, "remove " << gen::show(it->first));
        const Labels l = it->first;
        f->Remove(it->second.p);
        model.erase(it);
        ++removed;
        PBT_CHECK(!f->Has(l), "removed metric " << gen::show(l) << " is still present");
        break;
      }
      case 4: {
        if (!many) verify();
        break;
      }
      case 5: {
        PBT_NOTE(s, "remove a stranger");
        f->Remove(s.coin() ? nullptr : &stranger);
        break;
      }
      default: {
        // rejected, without a trace
        Labels l = kinds::confusable(s, false);
        if (!constant.empty() && s.coin()) {
          l[constant.begin()->first] = s.coin() ? constant.begin()->second : "x";
        } else {
          static const char* bad[] = {"", "1a", "a-b", "__x", "a:b"};
          l[bad[s.draw(5)]] = "v";
        }
        bool threw = false;
        try {
          K::add(*f, l, 0);
        } catch (const std::invalid_argument&) {
          threw = true;
        }
        PBT_CHECK(threw, "label set " << gen::show(l) << " is accepted");
        PBT_CHECK(!f->Has(l), "rejected label set " << gen::show(l) << " is present");
        break;
      }
    }
  }
  verify();
  auto o = other.Collect();
  PBT_CHECK(o.size() == 1 && o[0].metric.size() == 1 && K::matches(o[0].metric[0], strangerState),
            "another family was altered");
  if (shared) s.cls("added again");
  if (readds) s.cls("added after a removal");
  if (many) s.cls("many");
  if (!constant.empty()) s.cls("constant labels");
  if (model.size() > 1 || (removed && steps > 4)) s.nontrivial();
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  switch (s.draw(5)) {
    case 0: familyCase<Counter>(s); break;
    case 1: familyCase<Gauge>(s); break;
    case 2: familyCase<Info>(s); break;
    case 3: familyCase<Histogram>(s); break;
    default: familyCase<Summary>(s); break;
  }
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
