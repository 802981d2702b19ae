// Shared by the checks of the push library.
#pragma once

#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <string>
#include <utility>
#include <vector>

#include "gen.h"
#include "httpd.h"
#include "pbt.h"
#include "prometheus/collectable.h"
#include "prometheus/gateway.h"
#include "prometheus/text_serializer.h"

namespace pushutil {

// Something to read on the standard input, which is nobody's business but
// which libcurl sends if it is not given a body.
inline void fillStdin() {
  static int fd = -1;
  if (fd < 0) {
    char name[] = "/tmp/pbt-stdin-XXXXXX";
    fd = mkstemp(name);
    if (fd < 0) _exit(98);
    unlink(name);
    static const char text[] = "# read from the standard input\n";
    if (write(fd, text, sizeof text - 1) < 0 || dup2(fd, 0) < 0) _exit(98);
  }
  lseek(fd, 0, SEEK_SET);
  clearerr(stdin);
}

struct Fixed : prometheus::Collectable {
  std::vector<prometheus::MetricFamily> families;
  std::vector<prometheus::MetricFamily> Collect() const override { return families; }
};

inline std::string bodyOf(const prometheus::Collectable& c) {
  return prometheus::TextSerializer{}.Serialize(c.Collect());
}

inline bool decode64(std::string in, std::string* out) {
  while (!in.empty() && in.back() == '=') in.pop_back();
  static const std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  if (in.size() % 4 == 1) return false;
  unsigned acc = 0, bits = 0;
  out->clear();
  for (char c : in) {
    size_t v = c ? alphabet.find(c) : std::string::npos;
    if (v == std::string::npos) return false;
    acc = acc << 6 | static_cast<unsigned>(v);
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      *out += static_cast<char>(acc >> bits & 0xff);
    }
  }
  return true;
}

using Key = std::vector<std::pair<std::string, std::string>>;

inline std::string show(const Key& k) {
  std::string r;
  for (auto& p : k) r += p.first + "=" + pbt::esc(p.second) + " ";
  return r;
}

// how the push gateway reads a request path
inline Key groupingKey(const std::string& target, const std::string& prefix) {
  const std::string want = prefix + "/metrics/";
  PBT_CHECK(target.compare(0, want.size(), want) == 0,
            "request path " << pbt::esc(target) << " does not begin with " << want);
  for (char c : target) {
    PBT_CHECK(c > 32 && c < 127 && c != '?' && c != '#', "unencoded byte in request path " << pbt::esc(target));
  }
  std::vector<std::string> parts(1);
  for (size_t i = want.size(); i < target.size(); ++i) {
    if (target[i] == '/') {
      parts.emplace_back();
    } else {
      parts.back() += target[i];
    }
  }
  PBT_CHECK(parts.size() % 2 == 0, "odd number of path segments in " << pbt::esc(target));
  Key k;
  for (size_t i = 0; i < parts.size(); i += 2) {
    std::string name = parts[i], value = parts[i + 1];
    const std::string suffix = "@base64";
    if (name.size() > suffix.size() && name.compare(name.size() - suffix.size(), suffix.size(), suffix) == 0) {
      name.resize(name.size() - suffix.size());
      std::string d;
      PBT_CHECK(decode64(value, &d), "segment " << pbt::esc(value) << " is no base64");
      value = d;
    } else {
      PBT_CHECK(!value.empty(), "empty segment in " << pbt::esc(target));
      std::string d;
      for (size_t c = 0; c < value.size(); ++c) {
        if (value[c] == '%' && c + 2 < value.size()) {
          d += static_cast<char>(strtol(value.substr(c + 1, 2).c_str(), nullptr, 16));
          c += 2;
        } else {
          d += value[c];
        }
      }
      value = d;
    }
    k.push_back({name, value});
  }
  return k;
}

inline std::string labelValue(pbt::Source& s) {
  static const std::string nasty[] = {
      "", ".", "..", "...", "/", "//", "a/b", "/a", "a/", "../x", "./", "%", "%2F", "%00", "%zz", " ", "a b", "+",
      "?", "#", "&", "=", "==", "@base64", "a@base64", "~", "-", "_", "a.b", ".a", "a.", "\n", "\r\n", "\xff", "\xc3\xa4",
      std::string(1, '\0'), "\\", "\"", ":", "[", "]", "{}", "metrics", "job", "http://x", "2", "~.-_", "\x7f", "*", "!", "'", "(", ")", ";", ","};
  switch (s.weighted({5, 3, 3, 2, 1})) {
    case 3: {  // long and plain, with one special spot
      const size_t huge = gen::bulk(s, 20000, 12);
      std::string r(huge ? huge : s.draw(300), 'a');
      const size_t at = r.size() - s.draw(s.coin() ? r.size() + 1 : std::min<size_t>(r.size(), 4) + 1);
      r.insert(at, nasty[s.draw(sizeof nasty / sizeof *nasty)]);
      return r;
    }
    case 0: return nasty[s.draw(sizeof nasty / sizeof *nasty)];
    case 1: {
      std::string r;
      size_t n = s.length(40);
      for (size_t i = 0; i < n; ++i) r += "abcXYZ019-._~"[s.draw(13)];
      return r;
    }
    case 2: return gen::text(s, 30);
    default: {
      std::string r;
      size_t n = s.length(300);
      for (size_t i = 0; i < n; ++i) r += static_cast<char>(s.draw(256));
      return r;
    }
  }
}

inline prometheus::Labels groupingLabels(pbt::Source& s, const prometheus::Labels& except = {}) {
  prometheus::Labels l;
  const size_t many = gen::bulk(s, 60, 30);
  for (size_t i = 0; i < many; ++i) {
    const std::string k = "g" + std::to_string(i);
    if (!except.count(k)) l[k] = i % 7 ? std::to_string(i) : labelValue(s);
  }
  size_t n = s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    std::string k = gen::labelName(s);
    if (k == "job" || except.count(k)) continue;
    l[k] = labelValue(s);
  }
  return l;
}

}  // namespace pushutil
