// C19: base64 against an independent reference.
#include <exception>

#include "locales.h"
#include "pbt.h"
#include "prometheus/detail/base64.h"

using pbt::esc;
using pbt::Source;
namespace b64 = prometheus::detail;

namespace {

const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const char kUrl[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

// bit by bit, RFC 4648
std::string encode(const std::string& in, const char* alphabet) {
  std::string r;
  size_t bits = in.size() * 8;
  for (size_t b = 0; b < bits; b += 6) {
    unsigned v = 0;
    for (size_t k = b; k < b + 6; ++k) {
      v <<= 1;
      if (k < bits) v |= (static_cast<unsigned char>(in[k / 8]) >> (7 - k % 8)) & 1u;
    }
    r += alphabet[v];
  }
  while (r.size() % 4) r += '=';
  return r;
}

enum Verdict { Valid, NotCanonical, Invalid };

Verdict decode(const std::string& in, std::string* out) {
  out->clear();
  if (in.size() % 4) return Invalid;
  size_t pad = 0;
  while (pad < in.size() && in[in.size() - 1 - pad] == '=') ++pad;
  if (pad > 2) return Invalid;
  std::vector<bool> bits;
  const std::string alphabet(kStd);
  for (size_t i = 0; i < in.size() - pad; ++i) {
    if (in[i] == '\0') return Invalid;
    size_t v = alphabet.find(in[i]);
    if (v == std::string::npos) return Invalid;
    for (int k = 5; k >= 0; --k) bits.push_back((v >> k) & 1);
  }
  const size_t n = bits.size() / 8;
  for (size_t i = 0; i < n; ++i) {
    unsigned c = 0;
    for (size_t k = 0; k < 8; ++k) c = c << 1 | bits[8 * i + k];
    *out += static_cast<char>(c);
  }
  for (size_t k = 8 * n; k < bits.size(); ++k) {
    if (bits[k]) return NotCanonical;
  }
  return Valid;
}

std::string bytes(Source& s) {
  size_t n = s.chance(1, 20) ? s.draw(s.chance(1, 100) ? (s.chance(1, 4) ? 5000000 : 400000) : 5000) : s.length(100);
  std::string r;
  const unsigned mode = static_cast<unsigned>(s.draw(3));
  uint64_t x = n > 200 ? s.bits64() : 0;
  for (size_t i = 0; i < n; ++i) {
    if (n > 200) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      r += static_cast<char>(x >> 56);
    } else if (mode == 0) {
      r += static_cast<char>(s.draw(256));
    } else if (mode == 1) {
      static const unsigned char edge[] = {0, 0xff, 0xfb, 0xef, 0xbe, 0x3e, 0x3f, 0x80, 0x7f, 0xfc};
      r += static_cast<char>(edge[s.draw(10)]);
    } else {
      r += static_cast<char>('a' + s.draw(26));
    }
  }
  return r;
}

void checkDecode(Source& s, const std::string& in) {
  std::string want, got;
  const Verdict v = decode(in, &want);
  bool threw = false;
  try {
    got = b64::base64_decode(in);
  } catch (const std::exception&) {
    threw = true;
  }
  PBT_NOTE(s, "decode " << esc(in) << (v == Invalid ? " (malformed)" : ""));
  switch (v) {
    case Valid:
      PBT_CHECK(!threw, "rejects " << esc(in));
      PBT_CHECK(got == want, "decodes " << esc(in) << " as " << esc(got) << " instead of " << esc(want));
      s.cls("well-formed");
      break;
    case NotCanonical:  // unused bits are set; either way
      PBT_CHECK(threw || got == want, "decodes " << esc(in) << " as " << esc(got) << " instead of " << esc(want));
      s.cls("unused bits set");
      break;
    case Invalid:
      PBT_CHECK(threw, "accepts malformed " << esc(in) << " as " << esc(got));
      s.cls("malformed");
      break;
  }
}

}  // namespace

namespace pbt {

void pbt_init() {}

void pbt_case(Source& s) {
  const locales::Scope locale(s, 8);
  const std::string data = bytes(s);
  if (s.coin()) {
    PBT_NOTE(s, "encode " << esc(data));
    const std::string e = b64::base64_encode(data), u = b64::base64url_encode(data);
    PBT_CHECK(e == encode(data, kStd), "encodes " << esc(data) << " as " << esc(e));
    PBT_CHECK(u == encode(data, kUrl), "encodes " << esc(data) << " for URLs as " << esc(u));
    std::string back;
    try {
      back = b64::base64_decode(e);
      std::string t = u;
      for (auto& c : t) c = c == '-' ? '+' : c == '_' ? '/' : c;
      PBT_CHECK(b64::base64_decode(t) == data, "round trip of " << esc(data) << " for URLs");
    } catch (const std::exception& x) {
      fail("decoding the encoding of " + esc(data) + " throws " + x.what());
    }
    PBT_CHECK(back == data, "round trip of " << esc(data) << " gives " << esc(back));
    if (!data.empty()) s.nontrivial();
    s.cls("encode, remainder " + std::to_string(data.size() % 3));
    return;
  }
  std::string text = encode(data, s.chance(1, 8) ? kUrl : kStd);
  const size_t changes = s.draw(4);
  for (size_t i = 0; i < changes; ++i) {
    const size_t at = s.draw(text.size() + 1);
    const bool special = s.coin();
    static const char sp[] = "==+/-_ \n\r\tAZaz09.@[`{:,";
    const char c = special ? sp[s.draw(sizeof sp)] : static_cast<char>(s.draw(256));
    switch (s.draw(4)) {
      case 0:
        if (at < text.size()) text[at] = c;
        break;
      case 1: text.insert(text.begin() + static_cast<long>(at), c); break;
      case 2:
        if (at < text.size()) text.erase(at, 1 + s.draw(4));
        break;
      default: text += std::string(s.draw(5), '='); break;
    }
  }
  checkDecode(s, text);
  if (!text.empty()) s.nontrivial();
}

std::string pbt_known(const std::string&) { return "unknown name"; }

}  // namespace pbt
