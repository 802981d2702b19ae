// The master thread of civetweb sleeps in poll() for seconds before it looks
// whether it has to stop; wake it up earlier, so that servers stop quickly.
#include <poll.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" __attribute__((no_sanitize("all"))) int poll(struct pollfd* fds, nfds_t n, int timeout) {
  if (timeout > 5) {
    char name[17] = {};
    prctl(PR_GET_NAME, name, 0, 0, 0);
    if (strstr(name, "master")) timeout = 5;
  }
  return static_cast<int>(syscall(SYS_poll, fds, n, timeout));
}
