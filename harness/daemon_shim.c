/* Stands in for what the daemon gets from the system when it starts: the
   listening socket, new connections and the KNX device.  They are unix sockets
   inherited from the recorder (descriptors 100 and 101), everything else
   (select, read, write, close, signals) is the real thing. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#define CONTROL 100
#define DEVICE 101

__attribute__((constructor)) static void shim_start(void) { prctl(PR_SET_PDEATHSIG, SIGKILL); }

static int take(int from) {
  int fd = dup(from);
  close(from);
  return fd;
}

static int listener = -1;

int socket(int domain, int type, int protocol) {
  if (listener >= 0) { errno = EACCES; return -1; }
  listener = take(CONTROL);
  if (type & SOCK_NONBLOCK) fcntl(listener, F_SETFL, O_NONBLOCK);
  return listener;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) { return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t n) { return 0; }
int listen(int fd, int backlog) { return 0; }

int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) {
  char b;
  char cbuf[CMSG_SPACE(sizeof(int))];
  struct iovec io = {&b, 1};
  struct msghdr m = {0};
  struct cmsghdr *c;
  int got;
  m.msg_iov = &io; m.msg_iovlen = 1;
  m.msg_control = cbuf; m.msg_controllen = sizeof(cbuf);
  if (recvmsg(fd, &m, 0) <= 0) { if (errno == 0) errno = EINVAL; return -1; }
  c = CMSG_FIRSTHDR(&m);
  if (c == NULL) { errno = b == 'e' ? EMFILE : ECONNABORTED; return -1; }
  memcpy(&got, CMSG_DATA(c), sizeof(int));
  if (a != NULL && n != NULL) {
    struct sockaddr_in in = {0};
    in.sin_family = AF_INET;
    in.sin_port = htons(40000);
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &in, *n < sizeof(in) ? *n : sizeof(in));
    *n = sizeof(in);
  }
  if (flags & SOCK_NONBLOCK) fcntl(got, F_SETFL, O_NONBLOCK);
  return got;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }

static int knx_open(const char *path, int flags, mode_t mode) {
  if (path != NULL && strcmp(path, "/dev/knx-under-test") == 0) {
    int fd = take(DEVICE);
    if (flags & O_NONBLOCK) fcntl(fd, F_SETFL, O_NONBLOCK);
    return fd;
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char *path, int flags, ...) {
  va_list l; mode_t mode;
  va_start(l, flags); mode = va_arg(l, mode_t); va_end(l);
  return knx_open(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list l; mode_t mode;
  va_start(l, flags); mode = va_arg(l, mode_t); va_end(l);
  return knx_open(path, flags, mode);
}
