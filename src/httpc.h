// A plain HTTP/1.1 client on the loopback interface.
#pragma once

#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <zlib.h>

#include <atomic>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace httpc {

struct Response {
  bool complete = false;  // a whole, well-formed response
  std::string error;
  int status = 0;
  std::vector<std::pair<std::string, std::string>> headers;  // names in lower case
  std::string body;
  std::vector<std::string> all(const std::string& name) const {
    std::vector<std::string> r;
    for (auto& h : headers) {
      if (h.first == name) r.push_back(h.second);
    }
    return r;
  }
};

// where to connect to, an own address of the process keeps other servers away
inline uint32_t& address() {
  static uint32_t a = INADDR_LOOPBACK;
  return a;
}
inline std::string ownAddress() {
  in_addr a{htonl(address())};
  return inet_ntoa(a);
}

// set when the server is gone: a client does not wait for an answer then
inline std::atomic<bool>& gone() {
  static std::atomic<bool> g{false};
  return g;
}

class Conn {
 public:
  explicit Conn(int port, int receiveBuffer = 0) {
    fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (receiveBuffer) setsockopt(fd_, SOL_SOCKET, SO_RCVBUF, &receiveBuffer, sizeof receiveBuffer);
    int one = 1;
    setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    timeval t{30, 0};
    setsockopt(fd_, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<uint16_t>(port));
    a.sin_addr.s_addr = htonl(address());
    connected_ = connect(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
  }
  ~Conn() { close(fd_); }
  Conn(const Conn&) = delete;
  Conn& operator=(const Conn&) = delete;

  bool connected() const { return connected_; }

  bool send(const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = ::send(fd_, s.data() + at, s.size() - at, MSG_NOSIGNAL);
      if (n <= 0) return false;
      at += static_cast<size_t>(n);
    }
    return true;
  }

  // pause: microseconds between reads of at most `chunk` bytes
  Response receive(unsigned pause = 0, size_t chunk = 65536) {
    Response r;
    pause_ = pause;
    chunk_ = chunk;
    size_t end;
    while ((end = buf_.find("\r\n\r\n")) == std::string::npos) {
      if (buf_.size() > 100000) return bad(r, "endless head");
      if (!more()) return bad(r, buf_.empty() ? "no answer" : "the head is not complete");
    }
    std::string head = buf_.substr(0, end + 2);
    buf_.erase(0, end + 4);
    size_t eol = head.find("\r\n");
    const std::string line = head.substr(0, eol);
    if (line.compare(0, 7, "HTTP/1.") != 0 || line.size() < 12 || line[8] != ' ') return bad(r, "status line " + line);
    for (size_t i = 9; i < 12; ++i) {
      if (line[i] < '0' || line[i] > '9') return bad(r, "status line " + line);
    }
    r.status = atoi(line.c_str() + 9);
    size_t at = eol + 2;
    while (at < head.size()) {
      eol = head.find("\r\n", at);
      const std::string h = head.substr(at, eol - at);
      at = eol + 2;
      const size_t colon = h.find(':');
      if (colon == std::string::npos || colon == 0) return bad(r, "header line " + h);
      std::string name = h.substr(0, colon), value = h.substr(colon + 1);
      for (auto& c : name) c = static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
      while (!value.empty() && (value[0] == ' ' || value[0] == '\t')) value.erase(0, 1);
      while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
      r.headers.push_back({name, value});
    }
    const auto lengths = r.all("content-length");
    const auto encodings = r.all("transfer-encoding");
    if (!encodings.empty()) {  // chunked
      if (!lengths.empty()) return bad(r, "both a length and a transfer encoding");
      for (;;) {
        while ((eol = buf_.find("\r\n")) == std::string::npos) {
          if (!more()) return bad(r, "incomplete chunk");
        }
        const size_t n = strtoull(buf_.c_str(), nullptr, 16);
        while (buf_.size() < eol + 2 + n + 2) {
          if (!more()) return bad(r, "incomplete chunk");
        }
        r.body += buf_.substr(eol + 2, n);
        buf_.erase(0, eol + 2 + n + 2);
        if (n == 0) break;
      }
      r.complete = true;
      return r;
    }
    if (lengths.size() > 1) return bad(r, "several lengths");
    if (lengths.empty()) {  // up to the end of the connection
      while (more()) {
      }
      r.body.swap(buf_);
      r.complete = true;
      return r;
    }
    if (lengths[0].empty() || lengths[0].find_first_not_of("0123456789") != std::string::npos || lengths[0].size() > 12) {
      return bad(r, "content length " + lengths[0]);
    }
    const size_t n = strtoull(lengths[0].c_str(), nullptr, 10);
    while (buf_.size() < n) {
      if (!more()) {
        r.body = buf_;
        return bad(r, "the body ends after " + std::to_string(buf_.size()) + " of " + lengths[0] + " bytes");
      }
    }
    r.body = buf_.substr(0, n);
    buf_.erase(0, n);
    r.complete = true;
    return r;
  }

  // what comes until the server closes the connection
  std::string rest() {
    pause_ = 0;
    chunk_ = 65536;
    shutdown(fd_, SHUT_WR);
    while (more()) {
    }
    return std::move(buf_);
  }
  // something arrives (or the connection ends) within that time
  bool arrived(int milliseconds) {
    pollfd p{fd_, POLLIN, 0};
    return !buf_.empty() || poll(&p, 1, milliseconds) > 0;
  }
  // already received, but not part of a response yet
  const std::string& pending() const { return buf_; }

 private:
  static Response bad(Response r, const std::string& e) {
    r.error = e;
    r.complete = false;
    return r;
  }
  bool more() {
    char b[65536];
    if (pause_) usleep(pause_);
    int one = 1;  // civetweb sends heads in pieces: do not delay its progress
    setsockopt(fd_, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
    pollfd p{fd_, POLLIN, 0};
    for (int waited = 0; waited < 30000; waited += 50) {
      const bool last = gone();
      if (poll(&p, 1, 50) != 0) break;
      if (last) return false;
    }
    ssize_t n = recv(fd_, b, chunk_ < sizeof b ? chunk_ : sizeof b, 0);
    if (n <= 0) return false;
    buf_.append(b, static_cast<size_t>(n));
    return true;
  }
  int fd_;
  bool connected_ = false;
  unsigned pause_ = 0;
  size_t chunk_ = 65536;
  std::string buf_;
};

inline Response get(int port, const std::string& target, const std::string& headers = "") {
  Conn c(port);
  Response r;
  if (!c.connected()) {
    r.error = "no connection";
    return r;
  }
  c.send("GET " + target + " HTTP/1.1\r\nHost: localhost\r\n" + headers + "Connection: close\r\n\r\n");
  r = c.receive();
  const std::string tail = c.rest();
  if (r.complete && !tail.empty()) {
    r.complete = false;
    r.error = std::to_string(tail.size()) + " bytes after the body";
  }
  return r;
}

// one gzip member and nothing else
inline bool gunzip(const std::string& in, std::string* out) {
  z_stream z{};
  if (inflateInit2(&z, 16 + MAX_WBITS) != Z_OK) return false;
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = static_cast<uInt>(in.size());
  std::vector<char> b(1 << 18);
  int ret;
  out->clear();
  do {
    z.next_out = reinterpret_cast<Bytef*>(b.data());
    z.avail_out = static_cast<uInt>(b.size());
    ret = inflate(&z, Z_NO_FLUSH);
    out->append(b.data(), b.size() - z.avail_out);
  } while (ret == Z_OK);
  const bool ok = ret == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}

}  // namespace httpc
