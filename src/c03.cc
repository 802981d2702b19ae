// C03: the exposition is a function of the metrics only.
#include <algorithm>
#include <atomic>
#include <clocale>
#include <iomanip>
#include <locale>
#include <sstream>
#include <thread>

#include "gen.h"
#include "pbt.h"
#include "prometheus/text_serializer.h"

using namespace prometheus;
using pbt::Source;

namespace {

struct Punct : std::numpunct<char> {
  char point, sep;
  std::string group;
  Punct(char p, char t, std::string g) : point(p), sep(t), group(std::move(g)) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return group; }
  std::string do_truename() const override { return "ja"; }
};

std::locale genLocale(Source& s, std::string* what) {
  static const char points[] = {',', '\'', ';', '.'};
  static const char seps[] = {'.', ',', ' ', '_'};
  static const char* groups[] = {"\3", "\1", "\2\3", ""};
  char p = points[s.draw(4)], t = seps[s.draw(4)];
  size_t g = s.draw(4);
  *what = std::string("numpunct(") + p + "," + t + "," + std::to_string(g) + ")";
  return std::locale(std::locale::classic(), new Punct(p, t, groups[g]));
}

// a stream buffer that accepts a limited number of bytes at a time
struct SlowBuf : std::streambuf {
  std::string out;
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) out += static_cast<char>(c);
    return c;
  }
};

// serializes something else whenever it has received another few bytes
struct NestingBuf : std::streambuf {
  std::string out;
  size_t every = 1, left = 1;
  bool inside = false;
  const std::vector<MetricFamily>* other = nullptr;
  std::string expected, wrong;
  void tick(size_t n) {
    if (inside || n < left) {
      if (!inside) left -= n;
      return;
    }
    left = every;
    inside = true;
    const TextSerializer ser;
    std::string got = ser.Serialize(*other);
    if (got != expected) wrong = got;
    std::ostringstream ss;
    ss << std::hex << std::setprecision(3);
    ser.Serialize(ss, *other);
    if (ss.str() != expected) wrong = ss.str();
    inside = false;
  }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) out += static_cast<char>(c);
    tick(1);
    return c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    out.append(p, static_cast<size_t>(n));
    tick(static_cast<size_t>(n));
    return n;
  }
};

struct Restore {
  std::locale global;
  ~Restore() {
    std::locale::global(global);
    setlocale(LC_ALL, "C");
  }
};

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  gen::FamilyOptions o;
  o.maxMetrics = 3;
  o.large = s.coin();
  auto fams = gen::families(s, 4, o);
  size_t samples = 0;
  for (auto& f : fams) {
    samples += f.metric.size();
    PBT_NOTE(s, gen::show(f));
  }
  const TextSerializer ser;
  const std::string baseline = ser.Serialize(fams);

  Restore restore;
  std::string what;
  bool changed = false;
  if (s.coin()) {
    std::locale::global(genLocale(s, &what));
    PBT_NOTE(s, "global locale " << what);
    s.cls("global C++ locale");
    changed = true;
  }
  if (s.coin() && setlocale(LC_ALL, "de_DE.UTF-8")) {
    PBT_NOTE(s, "C locale de_DE.UTF-8");
    s.cls("C locale");
    changed = true;
  }
  {
    const std::string got = ser.Serialize(fams);
    PBT_CHECK(got == baseline, "exposition depends on the locale: "
                                   << esc(got) << " instead of "
                                   << esc(baseline));
  }

  SlowBuf slow;
  std::ostringstream ss;
  const bool useSlow = s.coin();
  std::ostream slowStream(&slow);
  std::ostream& os = useSlow ? slowStream : static_cast<std::ostream&>(ss);
  if (s.coin()) {
    os.imbue(genLocale(s, &what));
    PBT_NOTE(s, "stream locale " << what);
    s.cls("stream locale");
    changed = true;
  }
  using F = std::ios_base;
  static const F::fmtflags flags[] = {
      F::hex, F::oct, F::showbase, F::showpoint, F::showpos, F::uppercase,
      F::scientific, F::fixed, F::boolalpha, F::left, F::internal, F::unitbuf};
  if (s.coin()) {
    size_t n = s.draw(4);
    for (size_t i = 0; i < n; ++i) {
      auto f = flags[s.draw(sizeof flags / sizeof *flags)];
      if (f == F::hex || f == F::oct) {
        os.setf(f, F::basefield);
      } else {
        os.setf(f);
      }
      changed = true;
    }
    s.cls("stream flags");
  }
  if (s.coin()) {
    os.precision(s.range(0, 20));
    s.cls("stream precision");
    changed = true;
  }
  if (s.coin()) {
    os.fill("*0 #"[s.draw(4)]);
    os.width(s.range(0, 30));
    s.cls("stream width");
    changed = true;
  }
  const auto oldFlags = os.flags();
  const auto oldPrecision = os.precision();
  const auto oldFill = os.fill();
  const auto oldLocale = os.getloc();
  PBT_NOTE(s, "flags " << static_cast<unsigned>(oldFlags) << " precision "
                       << oldPrecision << " width " << os.width());

  // in pieces
  size_t cut = s.draw(fams.size() + 1);
  std::vector<MetricFamily> a(fams.begin(), fams.begin() + static_cast<long>(cut));
  std::vector<MetricFamily> b(fams.begin() + static_cast<long>(cut), fams.end());
  const Serializer& base = ser;
  if (s.coin()) {
    base.Serialize(os, fams);
  } else {
    base.Serialize(os, a);
    base.Serialize(os, b);
    if (cut && cut < fams.size()) s.cls("pieces");
  }
  const std::string got = useSlow ? slow.out : ss.str();
  PBT_CHECK(got == baseline, "exposition depends on the stream: "
                                 << esc(got) << " instead of "
                                 << esc(baseline));
  PBT_CHECK(os.good(), "stream is not good after serializing");
  PBT_CHECK(os.flags() == oldFlags, "format flags of the stream changed");
  PBT_CHECK(os.precision() == oldPrecision, "precision of the stream changed");
  PBT_CHECK(os.fill() == oldFill, "fill character of the stream changed");
  PBT_CHECK(os.getloc() == oldLocale, "locale of the stream changed");
  PBT_CHECK(ser.Serialize(a) + ser.Serialize(b) == baseline,
            "exposition of a list is not the concatenation of its parts");
  PBT_CHECK(TextSerializer{}.Serialize(fams) == baseline,
            "exposition is not repeatable");
  if (s.chance(1, 3)) {
    // another serialization in the middle of this one
    NestingBuf nb;
    nb.every = nb.left = 1 + s.draw(40) * (1 + baseline.size() / 2000);
    const bool self = s.chance(1, 4);
    const auto others = self ? fams : gen::families(s, 2, o);
    nb.other = &others;
    nb.expected = ser.Serialize(others);
    std::ostream out(&nb);
    ser.Serialize(out, fams);
    PBT_CHECK(nb.wrong.empty(), "serialized within another serialization: " << esc(nb.wrong) << " instead of " << esc(nb.expected));
    PBT_CHECK(nb.out == baseline, "a serialization within it alters the exposition: " << esc(nb.out) << " instead of "
                                                                                      << esc(baseline));
    s.cls("nested");
  }
  if (s.chance(1, 12)) {
    // several threads at once, each with its own document
    const size_t n = 2 + s.draw(3);
    std::vector<std::vector<MetricFamily>> docs(n);
    std::vector<std::string> wants(n), wrong(n);
    for (size_t i = 0; i < n; ++i) {
      docs[i] = i ? gen::families(s, 3, o) : fams;
      wants[i] = ser.Serialize(docs[i]);
    }
    size_t rounds = 0;
    for (auto& w : wants) rounds = std::max(rounds, 40000 / (w.size() + 400));
    rounds = std::min<size_t>(std::max<size_t>(rounds, 3), 60);
    std::atomic<size_t> ready{0};
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; ++i) {
      threads.emplace_back([&, i] {
        ++ready;
        while (ready < n) std::this_thread::yield();
        for (size_t k = 0; k < rounds; ++k) {
          std::string got;
          if (k % 2) {
            got = ser.Serialize(docs[i]);
          } else {
            std::ostringstream out;
            TextSerializer{}.Serialize(out, docs[i]);
            got = out.str();
          }
          if (got != wants[i]) wrong[i] = got;
        }
      });
    }
    for (auto& t : threads) t.join();
    for (size_t i = 0; i < n; ++i) {
      PBT_CHECK(wrong[i].empty(), "serialized at the same time as others: " << esc(wrong[i]) << " instead of " << esc(wants[i]));
    }
    s.cls("threads");
  }
  if (samples && changed) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
