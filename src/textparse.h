// Independent, strict reader of the Prometheus text exposition format 0.0.4,
// written from the format description, not from the serializer.
// Throws pbt::Fail on a malformed document.
#pragma once

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "pbt.h"

namespace textparse {

struct Sample {
  std::string name;
  std::map<std::string, std::string> labels;
  std::string value;
  bool hasTimestamp = false;
  std::string timestamp;
};

struct Block {  // the lines of one metric, grouped
  std::string metric;  // name in HELP/TYPE lines (empty if there are none)
  bool hasHelp = false, hasType = false;
  std::string help, type;
  std::vector<Sample> samples;
};

struct Document {
  std::vector<Block> blocks;
};

inline bool nameStart(char c, bool colon) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' ||
         (colon && c == ':');
}
inline bool nameChar(char c, bool colon) {
  return nameStart(c, colon) || (c >= '0' && c <= '9');
}

// number token as accepted by the scraper
inline bool validNumber(const std::string& t) {
  std::string l;
  for (char c : t) l += (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
  if (l == "nan" || l == "inf" || l == "+inf" || l == "-inf") return true;
  size_t i = 0;
  if (i < l.size() && (l[i] == '+' || l[i] == '-')) ++i;
  size_t digits = 0;
  auto run = [&] {
    while (i < l.size() && l[i] >= '0' && l[i] <= '9') {
      ++i;
      ++digits;
    }
  };
  run();
  if (i < l.size() && l[i] == '.') {
    ++i;
    run();
  }
  if (digits == 0) return false;
  if (i < l.size() && l[i] == 'e') {
    ++i;
    if (i < l.size() && (l[i] == '+' || l[i] == '-')) ++i;
    size_t before = digits;
    run();
    if (digits == before) return false;
  }
  return i == l.size();
}

// correctly rounded value of a token; must not depend on the C locale
inline double toDouble(const std::string& t) {
  if (!validNumber(t)) pbt::fail("not a number: " + pbt::esc(t));
  std::string l;
  for (char c : t) l += (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
  if (l == "nan") return std::numeric_limits<double>::quiet_NaN();
  if (l == "inf" || l == "+inf") return std::numeric_limits<double>::infinity();
  if (l == "-inf") return -std::numeric_limits<double>::infinity();
  static locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
  char* end = nullptr;
  double d = strtod_l(l.c_str(), &end, c);
  if (*end != '\0') pbt::fail("not a number: " + pbt::esc(t));
  return d;
}

inline uint64_t toCount(const std::string& t) {
  if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) {
    pbt::fail("not an exact count: " + pbt::esc(t));
  }
  errno = 0;
  uint64_t v = strtoull(t.c_str(), nullptr, 10);
  if (errno) pbt::fail("count out of range: " + pbt::esc(t));
  return v;
}

class Parser {
 public:
  explicit Parser(const std::string& text) : t_(text) {}

  Document parse() {
    Document d;
    Block cur;
    bool open = false;
    auto flush = [&] {
      if (open) d.blocks.push_back(cur);
      cur = Block{};
      open = false;
    };
    while (p_ < t_.size()) {
      size_t eol = t_.find('\n', p_);
      if (eol == std::string::npos) err("last line is not terminated");
      line_ = t_.substr(p_, eol - p_);
      i_ = 0;
      if (line_.empty()) err("empty line");
      if (line_[0] == '#') {
        if (line_.compare(0, 7, "# HELP ") == 0) {
          i_ = 7;
          std::string n = name(true);
          expect(' ');
          if (!(open && cur.metric == n && !cur.hasHelp &&
                cur.samples.empty())) {
            flush();
          }
          open = true;
          cur.metric = n;
          cur.hasHelp = true;
          cur.help = unescapeHelp(line_.substr(i_));
        } else if (line_.compare(0, 7, "# TYPE ") == 0) {
          i_ = 7;
          std::string n = name(true);
          expect(' ');
          std::string ty = line_.substr(i_);
          if (ty != "counter" && ty != "gauge" && ty != "histogram" &&
              ty != "summary" && ty != "untyped") {
            err("unknown type " + pbt::esc(ty));
          }
          if (!(open && cur.metric == n && !cur.hasType &&
                cur.samples.empty())) {
            flush();
          }
          open = true;
          cur.metric = n;
          cur.hasType = true;
          cur.type = ty;
        } else {
          err("unexpected comment");
        }
      } else {
        if (!open) err("sample without TYPE");
        cur.samples.push_back(sample());
      }
      p_ = eol + 1;
    }
    flush();
    return d;
  }

 private:
  [[noreturn]] void err(const std::string& m) {
    pbt::fail("malformed exposition: " + m + " in line " + pbt::esc(line_));
  }
  void expect(char c) {
    if (i_ >= line_.size() || line_[i_] != c) {
      err(std::string("expected '") + c + "' at column " + std::to_string(i_));
    }
    ++i_;
  }
  std::string name(bool colon) {
    size_t b = i_;
    if (i_ >= line_.size() || !nameStart(line_[i_], colon)) err("bad name");
    while (i_ < line_.size() && nameChar(line_[i_], colon)) ++i_;
    return line_.substr(b, i_ - b);
  }
  std::string unescapeHelp(const std::string& s) {
    std::string r;
    for (size_t k = 0; k < s.size(); ++k) {
      if (s[k] == '\\') {
        if (k + 1 >= s.size()) err("dangling backslash in help");
        ++k;
        if (s[k] == '\\') {
          r += '\\';
        } else if (s[k] == 'n') {
          r += '\n';
        } else {
          err("unknown escape in help");
        }
      } else {
        r += s[k];
      }
    }
    return r;
  }
  Sample sample() {
    Sample s;
    s.name = name(true);
    if (i_ < line_.size() && line_[i_] == '{') {
      ++i_;
      bool first = true;
      while (i_ < line_.size() && line_[i_] != '}') {
        if (!first) expect(',');
        first = false;
        std::string n = name(false);
        expect('=');
        expect('"');
        std::string v;
        for (;;) {
          if (i_ >= line_.size()) err("unterminated label value");
          char c = line_[i_++];
          if (c == '"') break;
          if (c == '\\') {
            if (i_ >= line_.size()) err("dangling backslash");
            char e = line_[i_++];
            if (e == '\\' || e == '"') {
              v += e;
            } else if (e == 'n') {
              v += '\n';
            } else {
              err("unknown escape in label value");
            }
          } else {
            v += c;
          }
        }
        if (!s.labels.insert({n, v}).second) err("duplicate label " + n);
      }
      expect('}');
    }
    expect(' ');
    size_t b = i_;
    while (i_ < line_.size() && line_[i_] != ' ') ++i_;
    s.value = line_.substr(b, i_ - b);
    if (!validNumber(s.value)) err("bad value " + pbt::esc(s.value));
    if (i_ < line_.size()) {
      expect(' ');
      s.timestamp = line_.substr(i_);
      s.hasTimestamp = true;
      size_t k = (!s.timestamp.empty() && s.timestamp[0] == '-') ? 1 : 0;
      if (k >= s.timestamp.size() ||
          s.timestamp.find_first_not_of("0123456789", k) != std::string::npos) {
        err("bad timestamp " + pbt::esc(s.timestamp));
      }
    }
    return s;
  }

  const std::string& t_;
  size_t p_ = 0;
  std::string line_;
  size_t i_ = 0;
};

inline Document parse(const std::string& text) { return Parser(text).parse(); }

}  // namespace textparse
