// C03: threads serialize at the same time, each to its own stream.
#include <iomanip>
#include <locale>
#include <memory>
#include <sstream>
#include <vector>

#include "dsched.h"
#include "gen.h"
#include "pbt.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;
using pbt::esc;

namespace {

// lets another thread go on after every few bytes
struct YieldingBuf : std::streambuf {
  std::string out;
  size_t every = 1, left = 1;
  void tick(size_t n) {
    if (n < left) {
      left -= n;
      return;
    }
    left = every;
    if (sched::self() >= 0) sched::yield();
  }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) out += static_cast<char>(c);
    tick(1);
    return c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    out.append(p, static_cast<size_t>(n));
    tick(static_cast<size_t>(n));
    return n;
  }
};

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
};

struct Job {
  size_t doc = 0;
  int how = 0;
  YieldingBuf buf;
  std::string got;
  std::ios_base::fmtflags flags{}, after{};
};

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  const size_t threads = 2 + s.draw(3);
  gen::FamilyOptions o;
  o.maxMetrics = 3;
  std::vector<std::vector<MetricFamily>> docs(1 + s.draw(threads));
  std::vector<std::string> wants;
  size_t samples = 0;
  const TextSerializer ser;
  const bool after = s.coin();  // the library is not used before the threads start
  for (auto& d : docs) {
    d = gen::families(s, 3, o);
    if (!after) wants.push_back(TextSerializer{}.Serialize(d));
    for (auto& f : d) {
      samples += f.metric.size();
      PBT_NOTE(s, gen::show(f));
    }
  }
  std::vector<std::vector<std::unique_ptr<Job>>> plan(threads);
  for (size_t t = 0; t < threads; ++t) {
    const size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; ++i) {
      std::unique_ptr<Job> j(new Job);
      j->doc = s.draw(docs.size());
      j->how = static_cast<int>(s.draw(3));
      j->buf.every = j->buf.left = 1 + s.draw(60);
      PBT_NOTE(s, "thread " << t << ": document " << j->doc << (j->how == 0 ? " to a string" : " to a stream"));
      plan[t].push_back(std::move(j));
    }
  }
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < threads; ++t) {
    bodies.push_back([&, t] {
      for (auto& j : plan[t]) {
        sched::yield();
        if (j->how == 0) {
          j->got = ser.Serialize(docs[j->doc]);
          continue;
        }
        std::ostream os(&j->buf);
        if (j->how == 2) {
          os.imbue(std::locale(std::locale::classic(), new Comma));
          os << std::hex << std::setprecision(3);
        }
        j->flags = os.flags();
        ser.Serialize(os, docs[j->doc]);
        j->after = os.flags();
        j->got = j->buf.out;
      }
    });
  }
  sched::run(s, bodies);
  if (after) {
    for (auto& d : docs) wants.push_back(TextSerializer{}.Serialize(d));
  }
  for (size_t t = 0; t < threads; ++t) {
    for (auto& j : plan[t]) {
      PBT_CHECK(j->got == wants[j->doc], "thread " << t << " gets " << esc(j->got) << " instead of " << esc(wants[j->doc]));
      PBT_CHECK(j->flags == j->after, "format flags of the stream of thread " << t << " changed");
    }
  }
  if (samples > 1 && sched::stats().switches > threads) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
