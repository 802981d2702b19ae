// A stand-in for the C part of civetweb below the real CivetServer, for
// controlled schedules: requests are function calls of the test's threads.
// What it takes over from civetweb 1.15: a request holds a reference to its
// request handler from the lookup until the answer, removing or replacing a
// request handler waits for these references; handlers for authentication are
// looked up and called without one; paths match exactly or as a prefix at a
// '/'; stopping waits for requests in progress, but nothing is sent any more.
#pragma once

#include <civetweb.h>
#include <pthread.h>
#include <strings.h>

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <new>

#include "dsched.h"
#include "untracked.h"

namespace civetstub {

using untracked::Str;
using untracked::Vec;

struct Handler {
  Str uri;
  mg_request_handler request = nullptr;
  mg_authorization_handler auth = nullptr;
  void* data = nullptr;
  int used = 0;
  bool removing = false;
};

}  // namespace civetstub

struct mg_context {
  pthread_mutex_t mutex;
  pthread_cond_t changed;
  civetstub::Vec<civetstub::Handler*> requests, auths;
  mg_callbacks callbacks;
  void* user = nullptr;
  bool stopping = false;
  int active = 0;
};

struct mg_connection {
  mg_request_info info;
  mg_context* context;
  pthread_mutex_t mutex;
  civetstub::Str out, accept, authorization;
  int authorized = 0;
};

namespace civetstub {

inline mg_context* g_context;  // the running server

struct Lock {
  explicit Lock(pthread_mutex_t* m) : m(m) { pthread_mutex_lock(m); }
  ~Lock() { pthread_mutex_unlock(m); }
  pthread_mutex_t* m;
};

inline void initMutex(pthread_mutex_t* m) {
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
  pthread_mutex_init(m, &a);
  pthread_mutexattr_destroy(&a);
}

inline Handler* find(const Vec<Handler*>& list, const char* uri) {
  for (auto* h : list) {
    if (!h->removing && h->uri == uri) return h;
  }
  for (auto* h : list) {
    if (!h->removing && strncmp(uri, h->uri.c_str(), h->uri.size()) == 0 && uri[h->uri.size()] == '/') return h;
  }
  return nullptr;
}

template <class T>
T* make() {
  return new (malloc(sizeof(T))) T();
}
template <class T>
void destroy(T* p) {
  p->~T();
  free(p);
}

inline void setHandler(mg_context* c, const char* uri, mg_request_handler request, mg_authorization_handler auth,
                       void* data, bool isAuth) {
  if (!c) return;
  sched::yield();
  Lock l(&c->mutex);
  auto& list = isAuth ? c->auths : c->requests;
  const bool removal = !request && !auth;
  for (size_t i = 0; i < list.size(); ++i) {
    Handler* h = list[i];
    if (h->uri != uri) continue;
    if (!isAuth) {
      h->removing = true;
      while (h->used > 0) pthread_cond_wait(&c->changed, &c->mutex);
      h->removing = false;
    }
    if (removal) {
      for (size_t k = 0; k < list.size(); ++k) {
        if (list[k] == h) {
          list.erase(list.begin() + static_cast<long>(k));
          break;
        }
      }
      destroy(h);
    } else {
      h->request = request;
      h->auth = auth;
      h->data = data;
    }
    return;
  }
  if (removal) return;
  auto* h = make<Handler>();
  h->uri = uri;
  h->request = request;
  h->auth = auth;
  h->data = data;
  list.push_back(h);
}

struct Result {
  bool refused = false;
  Str out;
};

// one request from its acceptance to the end of the connection
inline Result request(const char* uri, const char* authorization, const char* accept) {
  Result r;
  mg_context* c = g_context;
  if (!c) {
    r.refused = true;
    return r;
  }
  {
    Lock l(&c->mutex);
    if (c->stopping) {
      r.refused = true;
      return r;
    }
    c->active++;
  }
  auto* n = make<mg_connection>();
  memset(&n->info, 0, sizeof n->info);
  initMutex(&n->mutex);
  n->context = c;
  n->info.request_method = "GET";
  n->info.request_uri = uri;
  n->info.local_uri = uri;
  n->info.http_version = "1.1";
  n->info.user_data = c->user;
  n->info.content_length = -1;
  if (accept) n->accept = accept;
  if (authorization) n->authorization = authorization;
  auto header = [&](const char* k, const Str& v) {
    if (v.empty()) return;
    auto& h = n->info.http_headers[n->info.num_headers++];
    h.name = k;
    h.value = v.c_str();
  };
  header("Host", Str("localhost"));
  n->info.num_headers = 0;
  header("Accept-Encoding", n->accept);
  header("Authorization", n->authorization);
  sched::yield();
  Handler* h;
  mg_request_handler request = nullptr;
  void* data = nullptr;
  {
    Lock l(&c->mutex);
    h = find(c->requests, uri);
    if (h) {
      h->used++;
      request = h->request;
      data = h->data;
    }
  }
  sched::yield();
  mg_authorization_handler auth = nullptr;
  void* authData = nullptr;
  {
    Lock l(&c->mutex);
    if (Handler* a = find(c->auths, uri)) {
      auth = a->auth;
      authData = a->data;
    }
  }
  bool go = true;
  if (auth) {
    sched::yield();
    go = auth(n, authData) != 0;
  }
  if (go) {
    int handled = 0;
    if (h) {
      sched::yield();
      handled = request(n, data);
    }
    if (!handled) n->out += "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n";
  }
  sched::yield();
  if (h) {
    Lock l(&c->mutex);
    h->used--;
    pthread_cond_broadcast(&c->changed);
  }
  sched::yield();
  if (c->callbacks.connection_close) c->callbacks.connection_close(n);
  if (c->callbacks.connection_closed) c->callbacks.connection_closed(n);
  r.out = n->out;
  pthread_mutex_destroy(&n->mutex);
  destroy(n);
  {
    Lock l(&c->mutex);
    c->active--;
    pthread_cond_broadcast(&c->changed);
  }
  return r;
}

}  // namespace civetstub

extern "C" {

mg_context* mg_start2(mg_init_data* init, mg_error_data*) {
  auto* c = civetstub::make<mg_context>();
  civetstub::initMutex(&c->mutex);
  pthread_cond_init(&c->changed, nullptr);
  if (init->callbacks) {
    c->callbacks = *init->callbacks;
  } else {
    memset(&c->callbacks, 0, sizeof c->callbacks);
  }
  c->user = init->user_data;
  civetstub::g_context = c;
  return c;
}
mg_context* mg_start(const mg_callbacks* callbacks, void* user, const char**) {
  mg_init_data d;
  memset(&d, 0, sizeof d);
  d.callbacks = callbacks;
  d.user_data = user;
  return mg_start2(&d, nullptr);
}
void mg_stop(mg_context* c) {
  if (!c) return;
  sched::yield();
  pthread_mutex_lock(&c->mutex);
  c->stopping = true;
  while (c->active > 0) pthread_cond_wait(&c->changed, &c->mutex);
  pthread_mutex_unlock(&c->mutex);
  // the context stays for late requests of the test, which are refused
}
void mg_lock_context(mg_context* c) {
  if (c) pthread_mutex_lock(&c->mutex);
}
void mg_unlock_context(mg_context* c) {
  if (c) pthread_mutex_unlock(&c->mutex);
}
void mg_lock_connection(mg_connection* n) {
  if (n) pthread_mutex_lock(&n->mutex);
}
void mg_unlock_connection(mg_connection* n) {
  if (n) pthread_mutex_unlock(&n->mutex);
}
void mg_set_request_handler(mg_context* c, const char* uri, mg_request_handler h, void* data) {
  civetstub::setHandler(c, uri, h, nullptr, data, false);
}
void mg_set_auth_handler(mg_context* c, const char* uri, mg_authorization_handler h, void* data) {
  civetstub::setHandler(c, uri, nullptr, h, data, true);
}
void mg_set_websocket_handler(mg_context*, const char*, mg_websocket_connect_handler, mg_websocket_ready_handler,
                              mg_websocket_data_handler, mg_websocket_close_handler, void*) {}
const mg_request_info* mg_get_request_info(const mg_connection* n) { return &n->info; }
mg_context* mg_get_context(const mg_connection* n) { return n->context; }
void* mg_get_user_data(const mg_context* c) { return c->user; }
void* mg_get_user_context_data(const mg_connection* n) { return n->context->user; }
const char* mg_get_header(const mg_connection* n, const char* name) {
  for (int i = 0; i < n->info.num_headers; ++i) {
    if (strcasecmp(n->info.http_headers[i].name, name) == 0) return n->info.http_headers[i].value;
  }
  return nullptr;
}
int mg_get_server_ports(const mg_context*, int size, mg_server_port* ports) {
  if (size < 1) return 0;
  memset(ports, 0, sizeof *ports);
  ports->protocol = 1;
  ports->port = 9;
  return 1;
}
int mg_write(mg_connection* n, const void* p, size_t size) {
  sched::yield();
  if (n->context->stopping) return -1;
  n->out.append(static_cast<const char*>(p), size);
  return static_cast<int>(size);
}
int mg_printf(mg_connection* n, const char* format, ...) {
  va_list v, w;
  va_start(v, format);
  va_copy(w, v);
  const int size = vsnprintf(nullptr, 0, format, v);
  va_end(v);
  civetstub::Vec<char> b(static_cast<size_t>(size) + 1);
  vsnprintf(b.data(), b.size(), format, w);
  va_end(w);
  return mg_write(n, b.data(), static_cast<size_t>(size));
}
int mg_response_header_start(mg_connection* n, int status) {
  return mg_printf(n, "HTTP/1.1 %d %s\r\n", status, status == 200 ? "OK" : status == 401 ? "Unauthorized" : "Status"), 0;
}
int mg_response_header_add(mg_connection* n, const char* header, const char* value, int size) {
  if (size < 0) size = static_cast<int>(strlen(value));
  return mg_printf(n, "%s: %.*s\r\n", header, size, value), 0;
}
int mg_response_header_add_lines(mg_connection* n, const char* lines) { return mg_printf(n, "%s", lines), 0; }
int mg_response_header_send(mg_connection* n) { return mg_write(n, "\r\n", 2), 0; }
int mg_send_http_ok(mg_connection* n, const char* type, long long size) {
  return mg_printf(n, "HTTP/1.1 200 OK\r\nContent-Type: %s\r\nContent-Length: %lld\r\n\r\n", type, size), 0;
}
int mg_send_http_error(mg_connection* n, int status, const char*, ...) {
  return mg_printf(n, "HTTP/1.1 %d Error\r\nContent-Length: 0\r\n\r\n", status), 0;
}

int mg_send_chunk(mg_connection* n, const char* p, unsigned size) {
  char line[16];
  const int k = snprintf(line, sizeof line, "%x\r\n", size);
  int r = mg_write(n, line, static_cast<size_t>(k));
  if (r > 0 && size) r = mg_write(n, p, size);
  if (r > 0) r = mg_write(n, "\r\n", 2);
  return r;
}
int mg_send_http_redirect(mg_connection* n, const char* url, int status) {
  return mg_printf(n, "HTTP/1.1 %d Redirect\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n", status, url);
}
int mg_read(mg_connection*, void*, size_t) { return 0; }
void mg_close_connection(mg_connection*) {}
void mg_disable_connection_keep_alive(mg_connection*) {}
void mg_set_user_connection_data(const mg_connection* n, void* p) {
  const_cast<mg_connection*>(n)->info.conn_data = p;
}
void* mg_get_user_connection_data(const mg_connection* n) { return n->info.conn_data; }
void* mg_get_thread_pointer(const mg_connection*) { return nullptr; }
const char* mg_get_option(const mg_context*, const char*) { return ""; }
const mg_option* mg_get_valid_options() {
  static const mg_option none{nullptr, 0, nullptr};
  return &none;
}
const char* mg_version() { return CIVETWEB_VERSION; }
unsigned mg_check_feature(unsigned) { return 0; }
unsigned mg_init_library(unsigned features) { return features; }
unsigned mg_exit_library() { return 1; }
int mg_get_system_info(char*, int) { return 0; }
int mg_get_context_info(const mg_context*, char*, int) { return 0; }
int mg_get_connection_info(const mg_context*, int, char*, int) { return 0; }
void mg_cry(const mg_connection*, const char*, ...) {}
const char* mg_get_response_code_text(const mg_connection*, int status) { return status == 200 ? "OK" : "Status"; }
const char* mg_get_builtin_mime_type(const char*) { return "text/plain"; }
int mg_strcasecmp(const char* a, const char* b) { return strcasecmp(a, b); }
int mg_strncasecmp(const char* a, const char* b, size_t n) { return strncasecmp(a, b, n); }
int mg_get_cookie(const char*, const char*, char* to, size_t size) {
  if (size) *to = 0;
  return -1;
}
int mg_get_var2(const char*, size_t, const char*, char* to, size_t size, size_t) {
  if (size) *to = 0;
  return -1;
}
int mg_get_var(const char*, size_t, const char*, char* to, size_t size) {
  if (size) *to = 0;
  return -1;
}
int mg_url_decode(const char* s, int size, char* to, int room, int) {
  int k = 0;
  while (k < size && k + 1 < room) to[k] = s[k], ++k;
  if (room > 0) to[k] = 0;
  return k;
}
int mg_url_encode(const char* s, char* to, size_t room) {
  return mg_url_decode(s, static_cast<int>(strlen(s)), to, static_cast<int>(room), 0);
}

}  // extern "C"
