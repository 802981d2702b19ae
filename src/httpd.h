// A scripted HTTP/1.1 server on the loopback interface, in its own threads.
#pragma once

#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace httpd {

struct Request {
  std::string method, target, version;
  std::vector<std::pair<std::string, std::string>> headers;  // names in lower case
  std::string body;
  int connection = 0;  // number of the connection
  int behaviour = 0;   // index into the script
  std::vector<std::string> all(const std::string& name) const {
    std::vector<std::string> r;
    for (auto& h : headers) {
      if (h.first == name) r.push_back(h.second);
    }
    return r;
  }
};

enum class Act {
  Status,        // answer with the status
  StatusClose,   // and announce and do a close
  StatusHangup,  // and close without an announcement
  Drop,          // close without an answer
  Reset,         // reset the connection
  Truncate,      // less body than announced
  HalfHead,      // close within the status line
  Garbage,       // something else than HTTP
  Stall,         // no answer at all
  ResetBody,     // the connection is reset within the body
  BadChunk,      // a body in chunks that breaks off the rules
};

struct Behaviour {
  Act act = Act::Status;
  int status = 200;
  size_t body = 0;       // size of the body of an answer
  bool chunked = false;  // which comes in chunks
  int early = 0;         // status of an answer before the answer
};

class Server {
 public:
  Server() { listenOn(0); }

  int port() const { return port_; }

  // answers of the next requests; afterwards `rest`
  void script(std::vector<Behaviour> b, Behaviour rest = {}) {
    std::lock_guard<std::mutex> l(m_);
    script_ = std::move(b);
    rest_ = rest;
    next_ = 0;
    requests_.clear();
  }
  // decides by the request instead of the script
  void (*choose)(const Request&, Behaviour*) = nullptr;
  std::vector<Request> take() {
    std::lock_guard<std::mutex> l(m_);
    return std::move(requests_);
  }
  int used() {
    std::lock_guard<std::mutex> l(m_);
    return static_cast<int>(next_);
  }

 private:
  void listenOn(int port) {
    fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<uint16_t>(port));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (fd_ < 0 || bind(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || listen(fd_, 128) != 0 ||
        getsockname(fd_, reinterpret_cast<sockaddr*>(&a), &n) != 0) {
      perror("test server");
      _exit(98);
    }
    port_ = ntohs(a.sin_port);
    std::thread([this] { accepting(); }).detach();
  }

  void accepting() {
    int number = 0;
    for (;;) {
      int c = accept4(fd_, nullptr, nullptr, SOCK_CLOEXEC);
      if (c < 0) continue;
      int one = 1;
      setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      std::thread([this, c, number] { serve(c, number); }).detach();
      ++number;
    }
  }

  static void sendAll(int c, const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = send(c, s.data() + at, s.size() - at, MSG_NOSIGNAL);
      if (n <= 0) return;
      at += static_cast<size_t>(n);
    }
  }

  static bool more(int c, std::string* buf) {
    char b[65536];
    ssize_t n = recv(c, b, sizeof b, 0);
    if (n <= 0) return false;
    buf->append(b, static_cast<size_t>(n));
    return true;
  }

  void serve(int c, int number) {
    std::string buf;
    while (one(c, number, &buf)) {
    }
    close(c);
  }

  bool one(int c, int number, std::string* buf) {
    size_t end;
    while ((end = buf->find("\r\n\r\n")) == std::string::npos) {
      if (!more(c, buf)) return false;
    }
    Request r;
    r.connection = number;
    std::string head = buf->substr(0, end + 2);
    buf->erase(0, end + 4);
    size_t eol = head.find("\r\n");
    std::string line = head.substr(0, eol);
    size_t s1 = line.find(' '), s2 = line.rfind(' ');
    if (s1 != std::string::npos && s2 > s1) {
      r.method = line.substr(0, s1);
      r.target = line.substr(s1 + 1, s2 - s1 - 1);
      r.version = line.substr(s2 + 1);
    } else {
      r.method = line;
    }
    size_t at = eol + 2;
    size_t length = 0;
    bool expect = false, chunked = false;
    while (at < head.size()) {
      eol = head.find("\r\n", at);
      std::string h = head.substr(at, eol - at);
      at = eol + 2;
      size_t colon = h.find(':');
      std::string name = h.substr(0, colon), value = colon == std::string::npos ? "" : h.substr(colon + 1);
      for (auto& ch : name) ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);
      while (!value.empty() && (value[0] == ' ' || value[0] == '\t')) value.erase(0, 1);
      while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
      if (name == "content-length") length = strtoull(value.c_str(), nullptr, 10);
      if (name == "expect") expect = true;
      if (name == "transfer-encoding") chunked = true;
      r.headers.push_back({name, value});
    }
    if (expect) sendAll(c, "HTTP/1.1 100 Continue\r\n\r\n");
    if (chunked) {
      for (;;) {
        while ((eol = buf->find("\r\n")) == std::string::npos) {
          if (!more(c, buf)) return false;
        }
        size_t n = strtoull(buf->c_str(), nullptr, 16);
        while (buf->size() < eol + 2 + n + 2) {
          if (!more(c, buf)) return false;
        }
        r.body += buf->substr(eol + 2, n);
        buf->erase(0, eol + 2 + n + 2);
        if (n == 0) break;
      }
    }
    while (buf->size() < length) {
      if (!more(c, buf)) return false;
    }
    if (!chunked) {
      r.body = buf->substr(0, length);
      buf->erase(0, length);
    }
    Behaviour b;
    {
      std::lock_guard<std::mutex> l(m_);
      r.behaviour = static_cast<int>(next_);
      b = next_ < script_.size() ? script_[next_] : rest_;
      ++next_;
      if (choose) {
        choose(r, &b);
      } else {
        requests_.push_back(r);
      }
    }
    const std::string status = "HTTP/1.1 " + std::to_string(b.status) + " Whatever\r\n";
    const std::string length0 = b.status == 204 || b.status == 304 ? "" : "Content-Length: 0\r\n";
    std::string fields = length0, text;
    if (b.body && !length0.empty()) {
      text.assign(b.body, 'x');
      if (b.chunked) {
        fields = "Transfer-Encoding: chunked\r\n";
        char head[32];
        snprintf(head, sizeof head, "%zx\r\n", b.body);
        text = head + text + "\r\n0\r\n\r\n";
      } else {
        fields = "Content-Length: " + std::to_string(b.body) + "\r\n";
      }
    }
    if (b.early && b.act <= Act::StatusHangup) {
      sendAll(c, "HTTP/1.1 " + std::to_string(b.early) + " Wait\r\nLink: </x>; rel=preload\r\n\r\n");
    }
    auto reset = [&] {
      linger l{1, 0};
      setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    };
    switch (b.act) {
      case Act::Status: sendAll(c, status + fields + "\r\n" + text); return true;
      case Act::StatusClose: sendAll(c, status + fields + "Connection: close\r\n\r\n" + text); return false;
      case Act::StatusHangup: sendAll(c, status + fields + "\r\n" + text); return false;
      case Act::ResetBody:
        sendAll(c, status + "Content-Length: 100\r\n\r\n" + std::string(std::min<size_t>(b.body, 99), 'x'));
        usleep(3000);  // the client has seen the head
        reset();
        return false;
      case Act::BadChunk:
        sendAll(c, status + "Transfer-Encoding: chunked\r\nConnection: close\r\n\r\nzz\r\n");
        return false;
      case Act::Drop: return false;
      case Act::Reset: reset(); return false;
      case Act::Truncate: sendAll(c, status + "Content-Length: 1\r\nConnection: close\r\n\r\n"); return false;
      case Act::HalfHead: sendAll(c, status.substr(0, 4 + static_cast<size_t>(b.status) % 12)); return false;
      case Act::Garbage: sendAll(c, "BYE BYE\r\n\r\n"); return false;
      case Act::Stall: {
        char x;
        while (recv(c, &x, 1, 0) > 0) {
        }
        return false;
      }
    }
    return false;
  }

  int fd_ = -1;
  int port_ = 0;
  std::mutex m_;
  std::vector<Behaviour> script_;
  Behaviour rest_;
  size_t next_ = 0;
  std::vector<Request> requests_;
};

}  // namespace httpd
