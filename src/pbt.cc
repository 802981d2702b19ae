#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

namespace pbt {

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

void Source::reset() {
  pos_ = 0;
  hash_ = 0x1234567;
  nontrivial_ = false;
  labels_.clear();
  notes_.clear();
}

void Source::startRandom(uint64_t seed, Shared* sh) {
  reset();
  mode_ = Mode::Random;
  sh_ = sh;
  if (sh_) sh_->count = 0;
  for (auto& s : s_) s = splitmix(seed);
}

void Source::startReplay(std::vector<uint64_t> choices, Shared* sh) {
  reset();
  mode_ = Mode::Replay;
  replay_ = std::move(choices);
  sh_ = sh;
  if (sh_) sh_->count = 0;
}

uint64_t Source::rnd() {  // xoshiro256**
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  const uint64_t result = rotl(s_[1] * 5, 7) * 9;
  const uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return result;
}

uint64_t Source::draw(uint64_t n) {
  if (n == 0) n = 1;
  if (pos_ >= kMaxChoices) throw Discard{};
  uint64_t v;
  if (mode_ == Mode::Random) {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(rnd()) * n) >> 64);
  } else {
    v = pos_ < replay_.size() ? replay_[pos_] : 0;
    if (v >= n) v = v % n;
  }
  if (sh_) {
    sh_->choices[pos_] = v;
    sh_->count = pos_ + 1;
  }
  ++pos_;
  hash_ = (hash_ ^ (v + 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull;
  hash_ ^= hash_ >> 29;
  return v;
}

std::string esc(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
    if (r.size() > 400) {
      r += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
  }
  return r + "\"";
}

std::string num(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

static std::string json(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

static double nowSecs() {
  // not through std::chrono, which checks may virtualise
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC_RAW, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

enum class Outcome { Pass, Failed, Discarded };

static Outcome runCase(Source& s, std::string* msg) {
  try {
    pbt_case(s);
    return Outcome::Pass;
  } catch (const Fail& f) {
    *msg = f.msg;
    return Outcome::Failed;
  } catch (const Discard&) {
    return Outcome::Discarded;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return Outcome::Failed;
  }
}

static Shared* mapShared(const char* path) {
  int fd = open(path, O_RDWR | O_CREAT, 0600);
  size_t size = sizeof(Shared) + sizeof(uint64_t) * kMaxChoices;
  if (fd < 0 || ftruncate(fd, static_cast<off_t>(size)) != 0) {
    perror(path);
    _exit(99);
  }
  void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) _exit(99);
  close(fd);
  auto* sh = static_cast<Shared*>(p);
  sh->magic = 0x50425431;
  return sh;
}

static std::vector<uint64_t> readChoices(const char* path) {
  std::ifstream in(path, std::ios::binary);
  std::vector<uint64_t> r;
  uint64_t v;
  while (in.read(reinterpret_cast<char*>(&v), sizeof v)) r.push_back(v);
  return r;
}

[[noreturn]] static void finish(int rc) {
  fflush(nullptr);
  std::cout.flush();
  _exit(rc);
}

// One case in a process of its own, so that whatever the library initializes
// on first use happens within the case.  The message of a failure is left in
// the file out; a crash ends the worker in the same way.
static Outcome coldCase(uint64_t cs, Shared* sh, const char* out, bool* nontrivial, uint64_t* hash, std::string* msg) {
  static auto* shared = static_cast<uint64_t*>(
      mmap(nullptr, sizeof(uint64_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(nullptr);
  const pid_t child = fork();
  if (child < 0) return Outcome::Discarded;
  if (child == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    pbt_init();
    Source s;
    s.startRandom(cs, sh);
    sh->running = 1;
    const auto o = runCase(s, msg);
    sh->running = 0;
    if (o == Outcome::Failed) {
      std::ofstream f(out);
      f << *msg;
      f.close();
      finish(1);
    }
    *shared = s.hash();
    finish(o == Outcome::Discarded ? 3 : s.isNontrivial() ? 2 : 0);
  }
  int status = 0;
  while (waitpid(child, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(status)) {
    signal(WTERMSIG(status), SIG_DFL);
    raise(WTERMSIG(status));
    _exit(97);
  }
  switch (WEXITSTATUS(status)) {
    case 0: return Outcome::Pass;
    case 1: {
      std::ifstream f(out);
      std::stringstream text;
      text << f.rdbuf();
      if (text.str().empty()) _exit(97);  // not ours
      *msg = text.str();
      return Outcome::Failed;
    }
    case 2:
      *nontrivial = true;
      *hash = *shared;
      return Outcome::Pass;
    case 3: return Outcome::Discarded;
    default: _exit(WEXITSTATUS(status));
  }
}

static int doRun(uint64_t seed, double secs, uint64_t max_cases,
                 const char* shm, const char* out, const char* hashes) {
  Shared* sh = mapShared(shm);
  sh->heartbeat = 0;
  sh->running = 0;
  const uint64_t cold = getenv("PBT_COLD") ? strtoull(getenv("PBT_COLD"), nullptr, 10) : 0;
  bool warm = false;
  if (cold == 0) {
    pbt_init();
    warm = true;
  }
  Source s;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  uint64_t cases = 0, nontrivial = 0, discarded = 0;
  uint64_t nextSample = 1;
  std::string msg;
  bool failed = false;
  const double t0 = nowSecs();
  while (cases < max_cases && nowSecs() - t0 < secs) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + cases * 0xd1342543de82ef95ull;
    uint64_t cs = splitmix(x);
    if (!warm) {
      if (cases < cold && nowSecs() - t0 < secs / 4) {
        sh->heartbeat = ++cases;
        bool counts = false;
        uint64_t hash = 0;
        const auto o = coldCase(cs, sh, out, &counts, &hash, &msg);
        if (o == Outcome::Failed) {
          failed = true;
          break;
        }
        if (o == Outcome::Discarded) {
          ++discarded;
          continue;
        }
        labels["own process"]++;
        if (counts) {
          ++nontrivial;
          seen.insert(hash);
        }
        continue;
      }
      pbt_init();
      warm = true;
    }
    const bool describe = samples.size() < 6 && cases >= nextSample;
    s.setDescribe(describe);
    s.startRandom(cs, sh);
    sh->heartbeat = ++cases;
    sh->running = 1;
    auto o = runCase(s, &msg);
    sh->running = 0;
    if (o == Outcome::Failed) {
      failed = true;
      break;
    }
    if (o == Outcome::Discarded) {
      ++discarded;
      continue;
    }
    for (auto& l : s.labels()) labels[l.first]++;
    if (s.isNontrivial()) {
      ++nontrivial;
      if (seen.size() < 400000) seen.insert(s.hash());
      if (describe && !s.notes().empty()) {
        samples.push_back(s.notes());
        nextSample = cases * 4 + 3;
      }
    }
  }
  std::ofstream o(out);
  o << "{\"cases\":" << cases << ",\"nontrivial\":" << nontrivial
    << ",\"discarded\":" << discarded << ",\"secs\":" << (nowSecs() - t0)
    << ",\"failed\":" << (failed ? "true" : "false")
    << ",\"msg\":" << json(failed ? msg : "") << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) {
    o << (first ? "" : ",") << json(l.first) << ":" << l.second;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto& smp : samples) {
    o << (first ? "" : ",") << json(smp);
    first = false;
  }
  o << "]}\n";
  o.close();
  std::ofstream h(hashes, std::ios::binary);
  for (auto v : seen) h.write(reinterpret_cast<const char*>(&v), sizeof v);
  h.close();
  finish(failed ? 1 : 0);
}

static int doOne(const char* choices, bool verbose, const char* outChoices) {
  pbt_init();
  Source s;
  s.setDescribe(verbose);
  Shared* sh = outChoices ? mapShared(outChoices) : nullptr;
  s.startReplay(readChoices(choices), sh);
  std::string msg;
  auto o = runCase(s, &msg);
  if (verbose && !s.notes().empty()) printf("%s\n", s.notes().c_str());
  if (o == Outcome::Failed) {
    printf("FAIL: %s\n", msg.c_str());
    finish(1);
  }
  printf(o == Outcome::Pass ? "PASS\n" : "DISCARD\n");
  finish(0);
}

}  // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  pbt::pbt_init();
  return 0;
}
// the bytes are the choices: one byte for a small bound is enough, as bigger
// bounds are reduced modulo the bound
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  std::vector<uint64_t> choices;
  size_t i = 0;
  while (i < size && choices.size() < 4096) {
    uint8_t b = data[i++];
    if (b < 0xf0) {
      choices.push_back(b);
    } else {
      size_t n = 1u + (b & 3u) * 2u;  // 1, 3, 5, 7 more bytes
      uint64_t v = 0;
      for (size_t k = 0; k < n && i < size; ++k) v = (v << 8) | data[i++];
      choices.push_back(v);
    }
  }
  pbt::Source s;
  s.startReplay(choices);
  std::string msg;
  if (pbt::runCase(s, &msg) == pbt::Outcome::Failed) {
    const char* out = getenv("PBT_FUZZ_FAIL");
    if (out) {
      std::ofstream o(out, std::ios::binary);
      for (auto v : choices) {
        o.write(reinterpret_cast<const char*>(&v), sizeof v);
      }
    }
    fprintf(stderr, "FAIL: %s\n", msg.c_str());
    fflush(nullptr);
    _exit(77);
  }
  return 0;
}
#else
int main(int argc, char** argv) {
  using namespace pbt;
  signal(SIGPIPE, SIG_IGN);
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "run" && argc == 8) {
    return doRun(strtoull(argv[2], nullptr, 10), atof(argv[3]),
                 strtoull(argv[4], nullptr, 10), argv[5], argv[6], argv[7]);
  }
  if (cmd == "one" && argc >= 3) {
    bool verbose = argc >= 4 && std::string(argv[3]) == "-v";
    return doOne(argv[2], verbose, argc >= 5 ? argv[4] : nullptr);
  }
  if (cmd == "known" && argc == 3) {
    pbt_init();
    std::string r = pbt_known(argv[2]);
    if (!r.empty()) {
      printf("STILL-FAILS: %s\n", r.c_str());
      finish(1);
    }
    printf("PASSES\n");
    finish(0);
  }
  fprintf(stderr, "usage: run SEED SECS MAXCASES SHM OUT HASHES | one FILE [-v] [OUTCHOICES] | known NAME\n");
  return 98;
}
#endif
