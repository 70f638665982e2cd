// Deterministic-simulation shim: preloaded into the real, unmodified cdx binary.
// Every source of nondeterminism the process can observe (file and pipe I/O,
// sockets, clocks, randomness, process ids, child processes) goes through here
// and is decided by the plan in shared memory; see DESIGN.md.
#define _GNU_SOURCE
#include "shim.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static sim_shm *S;      // plan, log and captured output
static int active;      // 1 inside a simulated run
static short fdch[MAXFD];   // fd -> channel + 1
static int64_t fdoff[MAXFD]; // our view of the offset
static int64_t fdsize[MAXFD];
static int peer[MAXFD];      // simulated socket -> server end

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(int, close, int);
REAL(int, mkdir, const char *, mode_t);
REAL(int, rmdir, const char *);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(DIR *, opendir, const char *);
REAL(DIR *, fdopendir, int);
REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
REAL(off64_t, lseek64, int, off64_t, int);
REAL(int, rename, const char *, const char *);
REAL(int, ftruncate64, int, off64_t);
REAL(int, fcntl, int, int, ...);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, pipe2, int *, int);
REAL(int, poll, struct pollfd *, nfds_t, int);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, posix_spawnp, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, pidfd_spawnp, int *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(ssize_t, getrandom, void *, size_t, unsigned);
REAL(int, socket, int, int, int);
REAL(int, connect, int, const struct sockaddr *, socklen_t);
REAL(ssize_t, recv, int, void *, size_t, int);
REAL(ssize_t, send, int, const void *, size_t, int);
REAL(int, setsockopt, int, int, int, const void *, socklen_t);
REAL(int, getpeername, int, struct sockaddr *, socklen_t *);
REAL(int, getsockname, int, struct sockaddr *, socklen_t *);
REAL(int, epoll_wait, int, struct epoll_event *, int, int);
REAL(pid_t, getpid, void);
REAL(int, chmod, const char *, mode_t);
REAL(int, fchmod, int, mode_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, link, const char *, const char *);
REAL(int, symlink, const char *, const char *);
REAL(int, truncate64, const char *, off64_t);
REAL(long, syscall, long, ...);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, kill, pid_t, int);

static int inited;
static void *sym(const char *n) { return dlsym(RTLD_NEXT, n); }
static void init_real(void) {
  if (inited) return;
  inited = 1;
#define L(n) r_##n = sym(#n)
  L(open64); L(openat64); L(read); L(pread64); L(readv); L(write); L(writev); L(close); L(mkdir); L(rmdir); L(unlink);
  L(unlinkat); L(opendir); L(fdopendir); L(mmap64); L(lseek64); L(rename); L(ftruncate64); L(fcntl); L(dup); L(dup2);
  L(pipe2); L(poll); L(ioctl); L(posix_spawnp); L(pidfd_spawnp); L(clock_gettime); L(getrandom); L(socket); L(connect);
  L(recv); L(send); L(setsockopt); L(getpeername); L(getsockname); L(epoll_wait); L(getpid); L(chmod); L(fchmod); L(fsync);
  L(fdatasync); L(link); L(symlink); L(truncate64); L(syscall); L(nanosleep); L(kill);
}
__attribute__((constructor)) static void ctor(void) { init_real(); }

// ---------------------------------------------------------------- PRNG, log
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rand_ctr;
static uint64_t chrand(int ch, int salt, int64_t n) { return mix(mix(S->chan[ch].seed ^ S->seed) + (uint64_t)n * 7919u + (uint64_t)salt * 104729u); }

static void logev(int op, int ch, int err, int64_t off, int64_t len) {
  if (S->nlog < SIM_LOGCAP) {
    sim_ev *e = &S->log[S->nlog];
    e->op = op; e->chan = ch; e->err = err; e->off = off; e->len = len;
  }
  S->nlog++;
  uint64_t h = S->loghash;
  h = (h ^ (uint64_t)(op * 64 + ch)) * 0x100000001b3ull;
  h = (h ^ (uint64_t)(err + 1)) * 0x100000001b3ull;
  h = (h ^ (uint64_t)off) * 0x100000001b3ull;
  h = (h ^ (uint64_t)len) * 0x100000001b3ull;
  S->loghash = h;
}
static void die_kill(void) {
  r_syscall(SYS_kill, (long)r_syscall(SYS_getpid), (long)SIGKILL);
  for (;;) pause();
}
static int kill_permille = -1; // kill pending for this operation
static void step(void) {
  S->steps++;
  kill_permille = -1;
  for (int i = 0; i < S->nstop; i++)
    if (S->stop[i] == S->steps) {
      logev(OP_STOP, 0, 0, S->steps, 0);
      r_syscall(SYS_kill, (long)r_syscall(SYS_getpid), (long)SIGSTOP);
    }
  for (int i = 0; i < S->nfault; i++) {
    sim_fault *f = &S->fault[i];
    if (f->trig == T_STEP && f->act == A_KILL && f->at == S->steps) { f->fired++; kill_permille = f->arg; }
  }
  if (S->steps > S->step_budget) {
    S->over_budget = 1;
    die_kill();
  }
}
static void kill_now(int op, int ch) { logev(op, ch, 9999, S->steps, 0); die_kill(); }

// Is a fault due for (ch, op)?  off = current transfer offset, *lim is clipped so
// that the transfer stops exactly at the next offset-triggered fault.
static sim_fault *due(int ch, int op, int64_t off, size_t *lim, int nth) {
  sim_fault *hit = NULL;
  for (int i = 0; i < S->nfault; i++) {
    sim_fault *f = &S->fault[i];
    if (f->chan != ch || f->op != op || f->trig == T_STEP) continue;
    if (f->repeat >= 0 && f->fired >= f->repeat) continue;
    if (f->trig == T_NTH) {
      if (nth >= f->at) hit = f;
    } else {
      if (off >= f->at) hit = f;
      else if (lim && (int64_t)*lim > f->at - off) *lim = (size_t)(f->at - off);
    }
  }
  return hit;
}
static size_t frag(int ch, int64_t off, size_t n, int64_t nth) {
  sim_chan *c = &S->chan[ch];
  size_t m = n;
  uint64_t r = chrand(ch, 1, nth);
  switch (c->mode & 0xff) {
  case M_FIXED: m = c->p1; break;
  case M_RANDOM: m = 1 + r % (uint64_t)(c->p1 > 0 ? c->p1 : 1); break;
  case M_MIX: m = (r & 3) ? 1 + (r >> 8) % (uint64_t)(c->p1 > 0 ? c->p1 : 1) : (c->p2 > 0 ? 1 + (r >> 8) % (uint64_t)c->p2 : n); break;
  default: break;
  }
  if (m < 1) m = 1;
  if (m > n) m = n;
  for (int i = 0; i < c->ncut; i++)
    if (c->cut[i] > off && (int64_t)m > c->cut[i] - off) m = (size_t)(c->cut[i] - off);
  if (m < n) c->nshort++;
  return m;
}
static int want_eintr(int ch, int64_t nth) {
  sim_chan *c = &S->chan[ch];
  if (c->eintr <= 0 || c->neintr >= c->eintr_max) return 0;
  if ((int)(chrand(ch, 2, nth) % 1000) < c->eintr) { c->neintr++; return 1; }
  return 0;
}

// ---------------------------------------------------------------- paths
static void abspath(int dirfd, const char *p, char *out, size_t cap) {
  char base[512];
  if (p[0] == '/') { snprintf(out, cap, "%s", p); return; }
  if (dirfd == AT_FDCWD) {
    if (r_syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
  } else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    long n = r_syscall(SYS_readlink, l, base, sizeof base - 1);
    if (n < 0) n = 0;
    base[n] = 0;
  }
  while (p[0] == '.' && p[1] == '/') p += 2;
  snprintf(out, cap, "%s/%s", base, p);
  // squeeze "//" and "/./"
  char *d = out;
  for (char *s = out; *s;) {
    if (s[0] == '/' && s[1] == '/') { s++; continue; }
    if (s[0] == '/' && s[1] == '.' && s[2] == '/') { s += 2; continue; }
    *d++ = *s++;
  }
  *d = 0;
}
static int under(const char *p, const char *dir) {
  size_t n = strlen(dir);
  return n && strncmp(p, dir, n) == 0 && (p[n] == '/' || p[n] == 0) && !strstr(p, "/../");
}
// channel for a path; -1 = outside the simulated world
static int pathch(const char *abs) {
  for (int i = CH_FIRST; i < SIM_NCHAN; i++)
    if (S->chan[i].kind && strcmp(S->chan[i].path, abs) == 0) return i;
  if (under(abs, S->tmpdir)) return CH_TMP;
  if (under(abs, S->root)) return CH_OTHER;
  return -1;
}
static int escape(const char *what, const char *path, int err) {
  S->nescape++;
  size_t l = strlen(S->escape);
  if (l + 8 < sizeof S->escape) snprintf(S->escape + l, sizeof S->escape - l, "%s %s;", what, path);
  logev(OP_OPENW, CH_ESC, err, 0, 0);
  errno = err;
  return -1;
}
static int simple_fault(int ch, int op) { // returns errno or 0
  step();
  if (kill_permille >= 0) kill_now(op, ch);
  int nth = ++S->chan[ch].nops[op];
  sim_fault *f = due(ch, op, 0, NULL, nth);
  if (f) {
    f->fired++;
    f->pre_eof++;
    if (f->act == A_KILL) kill_now(op, ch);
    logev(op, ch, f->arg, nth, 0);
    return f->arg;
  }
  return 0;
}

// ---------------------------------------------------------------- open & co
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char abs[1024];
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  abspath(dirfd, path, abs, sizeof abs);
  int ch = pathch(abs);
  if (ch < 0) {
    if (w && strcmp(abs, "/dev/null") != 0) return escape("open-for-write", abs, EACCES);
    return dirfd == AT_FDCWD ? r_open64(path, flags, mode) : r_openat64(dirfd, path, flags, mode);
  }
  int isdir = (flags & O_DIRECTORY) != 0;
  int op = w ? OP_OPENW : isdir ? OP_OPENDIR : OP_OPEN;
  int e = simple_fault(ch, op);
  if (e) { errno = e; return -1; }
  int fd = dirfd == AT_FDCWD ? r_open64(path, flags, mode) : r_openat64(dirfd, path, flags, mode);
  int se = errno;
  logev(op, ch, fd < 0 ? se : 0, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL), 0);
  if (fd >= 0 && fd < MAXFD) {
    struct stat st;
    fdch[fd] = ch + 1;
    fdoff[fd] = 0;
    fdsize[fd] = -1;
    if (r_syscall(SYS_fstat, fd, &st) == 0) {
      if (S_ISREG(st.st_mode)) fdsize[fd] = st.st_size;
      else if (S_ISDIR(st.st_mode)) { /* reads give EISDIR naturally */ }
    }
    if (flags & O_APPEND) fdoff[fd] = fdsize[fd] > 0 ? fdsize[fd] : 0;
  }
  errno = se;
  return fd;
}
#define GETMODE(flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *p, int flags, ...) { GETMODE(flags); init_real(); return active ? do_open(AT_FDCWD, p, flags, mode) : r_open64(p, flags, mode); }
int open(const char *p, int flags, ...) { GETMODE(flags); init_real(); return active ? do_open(AT_FDCWD, p, flags, mode) : r_open64(p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags); init_real(); return active ? do_open(d, p, flags, mode) : r_openat64(d, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags); init_real(); return active ? do_open(d, p, flags, mode) : r_openat64(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int64_t pipepos[SIM_NCHAN]; // bytes already taken from a pipe-like input
#define ISPIPE(ch) ((ch) >= 0 && (S->chan[ch].mode & M_PIPE))
static int fdchan(int fd) { return fd >= 0 && fd < MAXFD ? fdch[fd] - 1 : -1; }

static ssize_t net_recv(int fd, void *buf, size_t n);
static ssize_t net_send(int fd, const void *buf, size_t n);

static ssize_t do_read(int fd, int ch, void *buf, size_t n) {
  if (ch == CH_SOCK) return net_recv(fd, buf, n);
  sim_chan *c = &S->chan[ch];
  step();
  if (kill_permille >= 0) kill_now(OP_READ, ch);
  int nth = ++c->nops[OP_READ];
  int64_t off = fdoff[fd];
  size_t lim = n;
  sim_fault *f = due(ch, OP_READ, off, &lim, nth);
  if (f) {
    f->fired++;
    if (!c->eof_seen) f->pre_eof++;
    if (f->act == A_KILL) kill_now(OP_READ, ch);
    logev(OP_READ, ch, f->arg, off, 0);
    errno = f->arg;
    return -1;
  }
  if (want_eintr(ch, nth)) { logev(OP_READ, ch, EINTR, off, 0); errno = EINTR; return -1; }
  if (lim > 0 && (ch == CH_PIPE0 || ch == CH_PIPE1) && S->pollmode && c->neintr < 6 && chrand(ch, 3, nth) % 4 == 0) {
    c->neintr++;
    logev(OP_READ, ch, EAGAIN, off, 0);
    int fl = r_fcntl(fd, F_GETFL);
    if (fl & O_NONBLOCK) { errno = EAGAIN; return -1; }
  }
  if (lim > 0) lim = frag(ch, off, lim, nth);
  if (ISPIPE(ch)) r_lseek64(fd, pipepos[ch], SEEK_SET); // every descriptor drains the same pipe
  ssize_t r = r_read(fd, buf, lim);
  int se = errno;
  if (r > 0) { fdoff[fd] += r; c->bytes_r += r; pipepos[ch] += r; }
  if (r == 0 && n > 0) c->eof_seen = 1;
  logev(OP_READ, ch, r < 0 ? se : 0, off, r);
  errno = se;
  return r;
}
ssize_t read(int fd, void *buf, size_t n) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  return ch < 0 ? r_read(fd, buf, n) : do_read(fd, ch, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { (void)bl; return read(fd, buf, n); }
ssize_t readv(int fd, const struct iovec *v, int cnt) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch < 0) return r_readv(fd, v, cnt);
  for (int i = 0; i < cnt; i++)
    if (v[i].iov_len) return do_read(fd, ch, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch < 0) return r_pread64(fd, buf, n, off);
  if (ISPIPE(ch)) { errno = ESPIPE; return -1; }
  sim_chan *c = &S->chan[ch];
  step();
  if (kill_permille >= 0) kill_now(OP_READ, ch);
  int nth = ++c->nops[OP_READ];
  size_t lim = n;
  sim_fault *f = due(ch, OP_READ, off, &lim, nth);
  if (f) { f->fired++; if (!c->eof_seen) f->pre_eof++; logev(OP_READ, ch, f->arg, off, 0); errno = f->arg; return -1; }
  if (want_eintr(ch, nth)) { logev(OP_READ, ch, EINTR, off, 0); errno = EINTR; return -1; }
  if (lim > 0) lim = frag(ch, off, lim, nth);
  ssize_t r = r_pread64(fd, buf, lim, off);
  int se = errno;
  if (r > 0) c->bytes_r += r;
  if (r == 0 && n > 0) c->eof_seen = 1;
  logev(OP_READ, ch, r < 0 ? se : 0, off, r);
  errno = se;
  return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

static ssize_t sink(int fd, int ch, const void *buf, size_t n) {
  if (ch == CH_STDOUT) {
    if (S->outlen + n > SIM_OUTCAP) { S->outlost += n; return (ssize_t)n; }
    memcpy(S->out + S->outlen, buf, n);
    S->outlen += n;
    return (ssize_t)n;
  }
  if (ch == CH_STDERR) {
    size_t m = n;
    if (S->errlen + m > SIM_ERRCAP) m = SIM_ERRCAP - S->errlen;
    memcpy(S->err + S->errlen, buf, m);
    S->errlen += m;
    return (ssize_t)n;
  }
  return r_write(fd, buf, n);
}
static ssize_t do_write(int fd, int ch, const void *buf, size_t n) {
  if (ch == CH_SOCK) return net_send(fd, buf, n);
  sim_chan *c = &S->chan[ch];
  step();
  int64_t off = ch == CH_TMP || ch == CH_OTHER ? fdoff[fd] : c->bytes_w;
  if (kill_permille >= 0) {
    size_t part = n * (size_t)kill_permille / 1000;
    if (part > n) part = n;
    if (part) sink(fd, ch, buf, part);
    kill_now(OP_WRITE, ch);
  }
  int nth = ++c->nops[OP_WRITE];
  size_t lim = n;
  sim_fault *f = due(ch, OP_WRITE, ch == CH_TMP ? c->bytes_w : off, &lim, nth);
  if (f) {
    f->fired++;
    f->pre_eof++;
    if (f->act == A_KILL) {
      size_t part = n * (size_t)f->arg / 1000;
      if (part) sink(fd, ch, buf, part);
      kill_now(OP_WRITE, ch);
    }
    if (f->act == A_SHORT) {
      if (lim > (size_t)f->arg) lim = (size_t)f->arg;
    } else {
      logev(OP_WRITE, ch, f->arg, off, (int64_t)n);
      if (f->arg == EPIPE) r_syscall(SYS_tgkill, (long)r_syscall(SYS_getpid), (long)r_syscall(SYS_gettid), (long)SIGPIPE);
      errno = f->arg;
      return -1;
    }
  }
  if (want_eintr(ch, nth)) { logev(OP_WRITE, ch, EINTR, off, 0); errno = EINTR; return -1; }
  if (lim > 0) lim = frag(ch, off, lim, nth);
  ssize_t r = sink(fd, ch, buf, lim);
  int se = errno;
  if (r > 0) { c->bytes_w += r; if (fd < MAXFD) fdoff[fd] += r; }
  logev(OP_WRITE, ch, r < 0 ? se : 0, off, r);
  errno = se;
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  return ch < 0 ? r_write(fd, buf, n) : do_write(fd, ch, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch < 0) return r_writev(fd, v, cnt);
  size_t tot = 0;
  for (int i = 0; i < cnt; i++) tot += v[i].iov_len;
  if (tot == 0) return do_write(fd, ch, "", 0);
  char *b = malloc(tot);
  size_t o = 0;
  for (int i = 0; i < cnt; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, ch, b, tot);
  int se = errno;
  free(b);
  errno = se;
  return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch < 0) return r_syscall(SYS_pwrite64, fd, buf, n, off);
  sim_chan *c = &S->chan[ch];
  step();
  if (kill_permille >= 0) kill_now(OP_WRITE, ch);
  int nth = ++c->nops[OP_WRITE];
  size_t lim = n;
  sim_fault *f = due(ch, OP_WRITE, off, &lim, nth);
  if (f) { f->fired++; f->pre_eof++; logev(OP_WRITE, ch, f->arg, off, n); errno = f->arg; return -1; }
  if (lim > 0) lim = frag(ch, off, lim, nth);
  ssize_t r = r_syscall(SYS_pwrite64, fd, buf, lim, off);
  int se = errno;
  if (r > 0) c->bytes_w += r;
  logev(OP_WRITE, ch, r < 0 ? se : 0, off, r);
  errno = se;
  return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
static void net_closed(int fd);
int close(int fd) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch >= 0) {
    logev(OP_CLOSE, ch, 0, fdoff[fd], 0);
    if (ch == CH_SOCK) net_closed(fd);
    fdch[fd] = 0;
  }
  return r_close(fd);
}
// in-kernel copies bypass read/write: make callers fall back
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  init_real();
  if (active) { errno = ENOSYS; return -1; }
  return r_syscall(SYS_copy_file_range, a, b, c, d, e, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  init_real();
  if (active) { errno = EINVAL; return -1; }
  return r_syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  init_real();
  if (active) { errno = EINVAL; return -1; }
  return r_syscall(SYS_splice, a, b, c, d, e, f);
}
off64_t lseek64(int fd, off64_t o, int w) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ISPIPE(ch)) { logev(OP_LSEEK, ch, ESPIPE, o, -1); errno = ESPIPE; return -1; }
  off64_t r = r_lseek64(fd, o, w);
  if (ch >= 0) { if (r >= 0) fdoff[fd] = r; logev(OP_LSEEK, ch, r < 0 ? errno : 0, o, r); }
  return r;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
// a pipe-like input has no length and is not a regular file
static int statch(int fd, const char *p, int flags) {
  if (!active) return -1;
  if (p && *p) {
    char abs[1024];
    abspath(fd, p, abs, sizeof abs);
    return pathch(abs);
  }
  (void)flags;
  return fdchan(fd);
}
static void unstat(int ch, struct stat *st) {
  if (!ISPIPE(ch)) return;
  st->st_mode = (st->st_mode & ~S_IFMT) | S_IFIFO;
  st->st_size = 0;
  st->st_blocks = 0;
}
int fstat(int fd, struct stat *st) {
  init_real();
  int r = (int)r_syscall(SYS_fstat, fd, st);
  if (r == 0) unstat(statch(fd, NULL, 0), st);
  return r;
}
int fstatat(int d, const char *p, struct stat *st, int fl) {
  init_real();
  int r = (int)r_syscall(SYS_newfstatat, d, p, st, fl);
  if (r == 0) unstat(statch(d, p, fl), st);
  return r;
}
int stat(const char *p, struct stat *st) { return fstatat(AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int stat64(const char *p, struct stat64 *st) { return fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *p, struct stat64 *st) { return fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
  init_real();
  int r = (int)r_syscall(SYS_statx, d, p, fl, mask, st);
  if (r == 0 && ISPIPE(statch(d, p, fl))) {
    st->stx_mode = (st->stx_mode & ~S_IFMT) | S_IFIFO;
    st->stx_size = 0;
    st->stx_blocks = 0;
  }
  return r;
}
int dup(int fd) {
  init_real();
  int r = r_dup(fd);
  if (active && r >= 0 && r < MAXFD && fd < MAXFD) { fdch[r] = fdch[fd]; fdoff[r] = fdoff[fd]; fdsize[r] = fdsize[fd]; }
  return r;
}
int dup2(int a, int b) {
  init_real();
  int r = r_dup2(a, b);
  if (active && r >= 0 && r < MAXFD && a < MAXFD) { fdch[r] = fdch[a]; fdoff[r] = fdoff[a]; fdsize[r] = fdsize[a]; }
  return r;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  init_real();
  int r = r_fcntl(fd, cmd, a);
  if (active && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
    fdch[r] = fdch[fd]; fdoff[r] = fdoff[fd]; fdsize[r] = fdsize[fd];
  }
  return r;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, a);
}

// ---------------------------------------------------------------- name space
static int ns_op(int op, const char *what, int dirfd, const char *p, int *chp) {
  char abs[1024];
  abspath(dirfd, p, abs, sizeof abs);
  int ch = pathch(abs);
  *chp = ch;
  if (ch < 0) return escape(what, abs, EPERM), -1;
  int e = simple_fault(ch, op);
  if (e) { errno = e; return -1; }
  return 0;
}
int mkdir(const char *p, mode_t m) {
  init_real();
  int ch;
  if (!active) return r_mkdir(p, m);
  if (ns_op(OP_MKDIR, "mkdir", AT_FDCWD, p, &ch)) return -1;
  int r = r_mkdir(p, m), se = errno;
  logev(OP_MKDIR, ch, r ? se : 0, m, 0);
  errno = se;
  return r;
}
int mkdirat(int d, const char *p, mode_t m) {
  init_real();
  int ch;
  if (!active) return (int)r_syscall(SYS_mkdirat, d, p, m);
  if (ns_op(OP_MKDIR, "mkdir", d, p, &ch)) return -1;
  int r = (int)r_syscall(SYS_mkdirat, d, p, m), se = errno;
  logev(OP_MKDIR, ch, r ? se : 0, m, 0);
  errno = se;
  return r;
}
int rmdir(const char *p) {
  init_real();
  int ch;
  if (!active) return r_rmdir(p);
  if (ns_op(OP_RMDIR, "rmdir", AT_FDCWD, p, &ch)) return -1;
  int r = r_rmdir(p), se = errno;
  logev(OP_RMDIR, ch, r ? se : 0, 0, 0);
  errno = se;
  return r;
}
int unlink(const char *p) {
  init_real();
  int ch;
  if (!active) return r_unlink(p);
  if (ns_op(OP_UNLINK, "unlink", AT_FDCWD, p, &ch)) return -1;
  int r = r_unlink(p), se = errno;
  logev(OP_UNLINK, ch, r ? se : 0, 0, 0);
  errno = se;
  return r;
}
int unlinkat(int d, const char *p, int fl) {
  init_real();
  int ch;
  if (!active) return r_unlinkat(d, p, fl);
  int op = fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK;
  if (ns_op(op, "unlink", d, p, &ch)) return -1;
  int r = r_unlinkat(d, p, fl), se = errno;
  logev(op, ch, r ? se : 0, 0, 0);
  errno = se;
  return r;
}
int rename(const char *a, const char *b) {
  init_real();
  int ch;
  if (!active) return r_rename(a, b);
  if (ns_op(OP_RENAME, "rename", AT_FDCWD, a, &ch)) return -1;
  if (ns_op(OP_RENAME, "rename", AT_FDCWD, b, &ch)) return -1;
  int r = r_rename(a, b), se = errno;
  logev(OP_RENAME, ch, r ? se : 0, 0, 0);
  errno = se;
  return r;
}
int renameat(int da, const char *a, int db, const char *b) {
  init_real();
  int ch;
  if (!active) return (int)r_syscall(SYS_renameat, da, a, db, b);
  if (ns_op(OP_RENAME, "rename", da, a, &ch)) return -1;
  if (ns_op(OP_RENAME, "rename", db, b, &ch)) return -1;
  return (int)r_syscall(SYS_renameat, da, a, db, b);
}
int link(const char *a, const char *b) {
  init_real();
  int ch;
  if (active && ns_op(OP_RENAME, "link", AT_FDCWD, b, &ch)) return -1;
  return r_link(a, b);
}
int symlink(const char *a, const char *b) {
  init_real();
  int ch;
  if (active && ns_op(OP_RENAME, "symlink", AT_FDCWD, b, &ch)) return -1;
  return r_symlink(a, b);
}
int truncate64(const char *p, off64_t n) {
  init_real();
  int ch;
  if (active && ns_op(OP_TRUNC, "truncate", AT_FDCWD, p, &ch)) return -1;
  return r_truncate64(p, n);
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int ftruncate64(int fd, off64_t n) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch >= 0) {
    int e = simple_fault(ch, OP_TRUNC);
    if (e) { errno = e; return -1; }
    logev(OP_TRUNC, ch, 0, n, 0);
  }
  return r_ftruncate64(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int chmod(const char *p, mode_t m) {
  init_real();
  int ch;
  if (active && ns_op(OP_CHMOD, "chmod", AT_FDCWD, p, &ch)) return -1;
  return r_chmod(p, m);
}
int fchmod(int fd, mode_t m) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch >= 0) logev(OP_CHMOD, ch, 0, m, 0);
  return r_fchmod(fd, m);
}
int fsync(int fd) {
  init_real();
  int ch = active ? fdchan(fd) : -1;
  if (ch < 0) return r_fsync(fd);
  int e = simple_fault(ch, OP_SYNC);
  if (e) { errno = e; return -1; }
  logev(OP_SYNC, ch, 0, 0, 0);
  return 0;
}
int fdatasync(int fd) { return active ? fsync(fd) : (init_real(), r_fdatasync(fd)); }
DIR *opendir(const char *p) {
  init_real();
  if (!active) return r_opendir(p);
  char abs[1024];
  abspath(AT_FDCWD, p, abs, sizeof abs);
  int ch = pathch(abs);
  if (ch >= 0) {
    int e = simple_fault(ch, OP_OPENDIR);
    if (e) { errno = e; return NULL; }
    logev(OP_OPENDIR, ch, 0, 0, 0);
  }
  return r_opendir(p);
}
DIR *fdopendir(int fd) { init_real(); return r_fdopendir(fd); }

static void *do_mmap(void *a, size_t n, int prot, int fl, int fd, off64_t off) {
  int ch = fd >= 0 ? fdchan(fd) : -1;
  if (ch >= 0) {
    int e = simple_fault(ch, OP_MMAP);
    if (!e && ISPIPE(ch)) e = ENODEV;
    if (e) { errno = e; return MAP_FAILED; }
    if ((prot & PROT_WRITE) && (fl & MAP_SHARED)) logev(OP_OPENW, ch, 0, -2, 0);
    logev(OP_MMAP, ch, 0, off, (int64_t)n);
    S->chan[ch].bytes_r += (int64_t)n;
  }
  return (void *)r_mmap64(a, n, prot, fl, fd, off);
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t off) {
  if (!inited || !active) return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
  return do_mmap(a, n, prot, fl, fd, off);
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap64(a, n, prot, fl, fd, off); }

// ---------------------------------------------------------------- clocks, randomness, identity
static void tick(void) {
  S->nclock++;
  S->now_us += S->clock_step_us;
  if (S->clock_jump_every > 0 && S->nclock % S->clock_jump_every == 0) S->now_us += S->clock_jump_us;
}
static int64_t mono_us(void) { // monotonic clock never goes backwards
  static int64_t last;
  if (S->now_us > last) last = S->now_us; else last += 1;
  return last;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  init_real();
  if (!active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return r_clock_gettime(id, ts);
  tick();
  int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? S->now_us : mono_us() - S->clock_base_us + 1000000000ll;
  if (t < 0) t = 0;
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  init_real();
  if (!active) return r_nanosleep(rq, rm);
  step();
  S->now_us += rq->tv_sec * 1000000ll + rq->tv_nsec / 1000 + 1;
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  init_real();
  if (!active) return (int)-r_syscall(SYS_clock_nanosleep, c, fl, rq, rm);
  step();
  if (fl == 0) S->now_us += rq->tv_sec * 1000000ll + rq->tv_nsec / 1000 + 1;
  return 0;
}
static void fill_rand(void *b, size_t n) {
  unsigned char *p = b;
  S->nrand++;
  while (n) {
    uint64_t v = mix(S->rand_seed + 0x1234567ull * ++rand_ctr);
    size_t k = n < 8 ? n : 8;
    memcpy(p, &v, k);
    p += k;
    n -= k;
  }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  init_real();
  if (!active) return r_getrandom(b, n, fl);
  fill_rand(b, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  init_real();
  if (!active) return r_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
  fill_rand(b, n);
  return 0;
}
pid_t getpid(void) {
  init_real();
  return active && S->fake_pid ? S->fake_pid : r_getpid();
}
pid_t gettid(void) {
  init_real();
  return active && S->fake_pid ? S->fake_pid : (pid_t)r_syscall(SYS_gettid);
}
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap;
  va_start(ap, rq);
  void *a = va_arg(ap, void *);
  va_end(ap);
  init_real();
  if (active && rq == TIOCGWINSZ) {
    if (!S->rows) { errno = ENOTTY; return -1; }
    struct winsize *w = a;
    memset(w, 0, sizeof *w);
    w->ws_row = (unsigned short)(S->rows < 0 ? 0 : S->rows);
    w->ws_col = (unsigned short)S->cols;
    return 0;
  }
  return r_ioctl(fd, rq, a);
}
long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (!inited) init_real();
  if (active && n == SYS_getrandom) { fill_rand((void *)a[0], (size_t)a[1]); return a[1]; }
  if (active && n == SYS_gettid) return gettid();
  return r_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---------------------------------------------------------------- child processes
static int npipe;
int pipe2(int *fds, int fl) {
  init_real();
  int r = r_pipe2(fds, fl);
  if (active && r == 0) {
    r_fcntl(fds[0], F_SETPIPE_SZ, 1 << 20);
    if (fds[0] < MAXFD) { fdch[fds[0]] = (npipe % 2 ? CH_PIPE1 : CH_PIPE0) + 1; fdoff[fds[0]] = 0; fdsize[fds[0]] = -1; }
    npipe++;
  }
  return r;
}
static int spawn_fault(void) {
  S->nspawn++;
  npipe = 0;
  return simple_fault(CH_OTHER, OP_SPAWN);
}
int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
  init_real();
  if (!active) return r_posix_spawnp(pid, f, fa, at, av, ev);
  int e = spawn_fault();
  if (e) return e;
  // containment: only programs inside the simulated world are ever started
  char abs[1024];
  abspath(AT_FDCWD, f, abs, sizeof abs);
  if (pathch(abs) < 0) { escape("spawn", abs, EACCES); return EACCES; }
  S->chan[CH_PIPE0].eof_seen = S->chan[CH_PIPE1].eof_seen = 0;
  int r = r_posix_spawnp(pid, f, fa, at, av, ev);
  logev(OP_SPAWN, CH_OTHER, r, 0, 0);
  if (r == 0) { // run the child to completion: its output is then delivered by our schedule
    siginfo_t si;
    while (waitid(P_PID, (id_t)*pid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) {}
  }
  return r;
}
int posix_spawn(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
  return posix_spawnp(pid, f, fa, at, av, ev);
}
int pidfd_spawnp(int *pidfd, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
  (void)pidfd; (void)f; (void)fa; (void)at; (void)av; (void)ev;
  init_real();
  if (!active) return r_pidfd_spawnp(pidfd, f, fa, at, av, ev);
  return ENOSYS;
}
int poll(struct pollfd *p, nfds_t n, int to) {
  init_real();
  if (!active) return r_poll(p, n, to);
  int tracked = 0;
  for (nfds_t i = 0; i < n; i++) if (fdchan(p[i].fd) == CH_PIPE0 || fdchan(p[i].fd) == CH_PIPE1) tracked++;
  int r = r_poll(p, n, to);
  if (tracked) {
    step();
    if (r >= 2 && S->pollmode) { // decide which of the ready pipes is seen first
      uint64_t h = mix(S->seed + (uint64_t)S->steps * 31);
      if (h % 3 < 2) {
        nfds_t drop = h % 3;
        nfds_t k = 0;
        for (nfds_t i = 0; i < n; i++) if (p[i].revents) { if (k == drop) { p[i].revents = 0; r--; break; } k++; }
      }
    }
    logev(OP_POLL, CH_PIPE0, 0, r, 0);
  }
  return r;
}

// ---------------------------------------------------------------- simulated network (S3 endpoint)
typedef struct { int cli, srv; int resp; int64_t sent; int64_t due_us; char req[4096]; int reqlen; int dead; } conn_t;
static conn_t conns[16];
static int nconn, nreq;
// the client closed its end: the number may be used again for another connection
static void net_closed(int fd) {
  for (int i = 0; i < nconn; i++)
    if (conns[i].cli == fd) { conns[i].cli = -1; conns[i].dead = 1; }
  if (peer[fd] > 0) { r_close(peer[fd] - 1); peer[fd] = 0; }
}
int socket(int d, int t, int pr) {
  init_real();
  if (!active || (d != AF_INET && d != AF_INET6)) return r_socket(d, t, pr);
  int sv[2];
  int fl = SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC;
  if (r_syscall(SYS_socketpair, AF_UNIX, fl, 0, sv) < 0) return -1;
  int big = 4 << 20;
  r_setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
  r_setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
  if (sv[0] < MAXFD) { fdch[sv[0]] = CH_SOCK + 1; fdoff[sv[0]] = 0; peer[sv[0]] = sv[1] + 1; }
  return sv[0];
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  init_real();
  if (!active) return r_connect(fd, a, l);
  if (fdchan(fd) != CH_SOCK) { errno = ENETUNREACH; return -1; }
  step();
  int k = nreq; // the response slot this connection would use
  int e = simple_fault(CH_SOCK, OP_CONNECT);
  if (!e && k < S->nresp && S->resp[k].refuse) { e = S->resp[k].refuse; nreq++; S->nresp_used++; S->resp[k].used = 1; }
  if (!e && k >= S->nresp) e = ECONNREFUSED;
  if (!e && nconn >= 16) e = ECONNREFUSED;
  logev(OP_CONNECT, CH_SOCK, e, nconn, 0);
  if (e) { errno = e; return -1; }
  conn_t *c = &conns[nconn++];
  memset(c, 0, sizeof *c);
  c->cli = fd; c->srv = peer[fd] - 1; c->resp = -1;
  return 0;
}
static int fake_name(struct sockaddr *a, socklen_t *l, int port) {
  struct sockaddr_in s;
  memset(&s, 0, sizeof s);
  s.sin_family = AF_INET;
  s.sin_port = htons((uint16_t)port);
  s.sin_addr.s_addr = htonl(0x7f000001);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
  *l = sizeof s;
  return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) { init_real(); return active && fdchan(fd) == CH_SOCK ? fake_name(a, l, 9000) : r_getpeername(fd, a, l); }
int getsockname(int fd, struct sockaddr *a, socklen_t *l) { init_real(); return active && fdchan(fd) == CH_SOCK ? fake_name(a, l, 40000) : r_getsockname(fd, a, l); }
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
  init_real();
  if (active && fdchan(fd) == CH_SOCK) return 0;
  return r_setsockopt(fd, lv, o, v, l);
}
static ssize_t net_recv(int fd, void *buf, size_t n) {
  sim_chan *c = &S->chan[CH_SOCK];
  step();
  int nth = ++c->nops[OP_RECV];
  size_t lim = n;
  sim_fault *f = due(CH_SOCK, OP_RECV, c->bytes_r, &lim, nth);
  if (f) { f->fired++; f->pre_eof++; logev(OP_RECV, CH_SOCK, f->arg, c->bytes_r, 0); errno = f->arg; return -1; }
  for (int i = 0; i < nconn; i++)
    if (conns[i].cli == fd && conns[i].dead == 2) { // reset: pending data is discarded
      logev(OP_RECV, CH_SOCK, ECONNRESET, c->bytes_r, 0);
      errno = ECONNRESET;
      return -1;
    }
  ssize_t r = r_recv(fd, buf, lim, 0);
  int se = errno;
  if (r > 0) c->bytes_r += r;
  logev(OP_RECV, CH_SOCK, r < 0 ? se : 0, c->bytes_r, r);
  errno = se;
  return r;
}
static ssize_t net_send(int fd, const void *buf, size_t n) {
  sim_chan *c = &S->chan[CH_SOCK];
  step();
  int nth = ++c->nops[OP_SEND];
  sim_fault *f = due(CH_SOCK, OP_SEND, c->bytes_w, NULL, nth);
  if (f) { f->fired++; f->pre_eof++; logev(OP_SEND, CH_SOCK, f->arg, c->bytes_w, 0); errno = f->arg; return -1; }
  ssize_t r = r_send(fd, buf, n, MSG_NOSIGNAL);
  int se = errno;
  if (r > 0) c->bytes_w += r;
  logev(OP_SEND, CH_SOCK, r < 0 ? se : 0, c->bytes_w, 0); // request bytes carry signatures: length not logged
  errno = se;
  return r;
}
ssize_t recv(int fd, void *buf, size_t n, int fl) {
  init_real();
  return active && fdchan(fd) == CH_SOCK ? net_recv(fd, buf, n) : r_recv(fd, buf, n, fl);
}
ssize_t send(int fd, const void *buf, size_t n, int fl) {
  init_real();
  return active && fdchan(fd) == CH_SOCK ? net_send(fd, buf, n) : r_send(fd, buf, n, fl);
}
static int64_t resp_delay(sim_resp *p, int64_t k) {
  if (p->delay_us <= 0) return 0;
  return (int64_t)(mix(S->seed + (uint64_t)k * 977) % (uint64_t)(2 * p->delay_us + 1));
}
// let the simulated server consume requests and emit what is due; returns next event time or -1
static int64_t net_pump(void) {
  int64_t next = -1;
  for (int i = 0; i < nconn; i++) {
    conn_t *c = &conns[i];
    if (c->dead || fdchan(c->cli) != CH_SOCK) continue;
    if (c->resp < 0) {
      ssize_t r = r_recv(c->srv, c->req + c->reqlen, sizeof c->req - 1 - (size_t)c->reqlen, MSG_DONTWAIT);
      if (r > 0) { c->reqlen += (int)r; c->req[c->reqlen] = 0; }
      if (strstr(c->req, "\r\n\r\n")) {
        if (nreq < SIM_NRESP) {
          size_t l = strcspn(c->req, "\r");
          if (l > 511) l = 511;
          memcpy(S->reqline[nreq], c->req, l);
          S->reqline[nreq][l] = 0;
        }
        c->reqlen = 0;
        c->req[0] = 0;
        if (nreq < S->nresp && S->resp[nreq].refuse) { // refused: an open connection is closed instead
          S->resp[nreq].used = 1; nreq++; S->nresp_used++;
          r_close(c->srv); peer[c->cli] = 0; c->dead = 1; continue;
        }
        if (nreq >= S->nresp) { r_close(c->srv); peer[c->cli] = 0; c->dead = 1; continue; }
        c->resp = nreq++;
        S->resp[c->resp].used = 1;
        S->nresp_used++;
        c->sent = 0;
        c->due_us = S->now_us + resp_delay(&S->resp[c->resp], c->resp * 1000);
      }
    }
    if (c->resp < 0) continue;
    sim_resp *p = &S->resp[c->resp];
    while (c->resp >= 0 && !c->dead && c->due_us <= S->now_us) {
      if (c->sent < p->len) {
        size_t n = (size_t)(p->len - c->sent);
        uint64_t h = mix(S->seed * 3 + (uint64_t)c->sent * 131 + (uint64_t)c->resp);
        if (p->mode == M_FIXED && n > (size_t)p->p1) n = (size_t)p->p1;
        if (p->mode == M_RANDOM) { size_t m = 1 + h % (uint64_t)p->p1; if (n > m) n = m; }
        ssize_t r = r_send(c->srv, S->net + p->off + c->sent, n, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (r <= 0) break;
        c->sent += r;
        logev(OP_EPOLL, CH_SOCK, 0, c->sent, r);
        c->due_us = S->now_us + resp_delay(p, c->resp * 1000 + c->sent);
        if (p->mode != M_WHOLE) { if (c->due_us <= S->now_us) c->due_us = S->now_us + 1; }
      } else {
        if (p->end == 0) { c->resp = -1; break; }
        if (p->end == 1) { r_close(c->srv); peer[c->cli] = 0; c->dead = 1; logev(OP_EPOLL, CH_SOCK, 1, c->sent, 0); break; }
        if (p->end == 2) { c->dead = 2; r_syscall(SYS_shutdown, c->srv, SHUT_RDWR); logev(OP_EPOLL, CH_SOCK, 2, c->sent, 0); break; }
        c->due_us = INT64_MAX; // stall
      }
    }
    if (!c->dead && c->resp >= 0 && c->due_us != INT64_MAX && (next < 0 || c->due_us < next)) next = c->due_us;
  }
  return next;
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int to) {
  init_real();
  if (!active) return r_epoll_wait(ep, ev, n, to);
  step();
  int64_t deadline = to < 0 ? -1 : S->now_us + (int64_t)to * 1000;
  for (;;) {
    int64_t next = net_pump();
    int r = r_epoll_wait(ep, ev, n, 0);
    if (r != 0) return r;
    if (to == 0) { S->now_us += 1; return 0; }
    step();
    if (next >= 0 && (deadline < 0 || next <= deadline)) { if (next > S->now_us) S->now_us = next; continue; }
    if (deadline >= 0) { if (deadline > S->now_us) S->now_us = deadline; return 0; }
    S->deadlock = 1;
    logev(OP_EPOLL, CH_SOCK, 9998, 0, 0);
    die_kill();
  }
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int to, const sigset_t *s) { (void)s; return epoll_wait(ep, ev, n, to); }

// ---------------------------------------------------------------- fork server
typedef int (*main_fn)(int, char **, char **);
typedef int (*start_fn)(main_fn, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

static void child_setup(int *argc, char ***argv) {
  struct rlimit rl;
  memset(fdch, 0, sizeof fdch);
  if (chdir(S->cwd)) _exit(250);
  int in = r_open64(S->stdin_path[0] ? S->stdin_path : "/dev/null", O_RDONLY);
  int out = r_open64("/dev/null", O_RDWR);
  if (in < 0 || out < 0) _exit(251);
  r_dup2(in, 0);
  r_dup2(out, 1);
  r_dup2(out, 2);
  r_close(in);
  r_close(out);
  fdch[0] = CH_STDIN + 1;
  fdch[1] = CH_STDOUT + 1;
  fdch[2] = CH_STDERR + 1;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = (rlim_t)S->cpu_secs;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 256u << 20;
  setrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30;
  setrlimit(RLIMIT_AS, &rl);
  char **v = malloc(sizeof(char *) * (S->argc + S->envc + 4));
  char *p = S->args;
  uint32_t i, k = 0;
  for (i = 0; i < S->argc; i++) { v[k++] = strdup(p); p += strlen(p) + 1; }
  v[k++] = NULL;
  char **env = &v[k];
  for (i = 0; i < S->envc; i++) { v[k++] = strdup(p); p += strlen(p) + 1; }
  v[k++] = NULL;
  v[k++] = NULL; // empty auxv terminator
  v[k] = NULL;
  environ = env;
  *argc = (int)S->argc;
  *argv = v;
  S->now_us = S->clock_base_us;
  active = 1;
}

int __libc_start_main(main_fn m, int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
  init_real();
  start_fn real = (start_fn)sym("__libc_start_main");
  const char *fds = getenv("CDXSIM_FDS");
  if (!fds) return real(m, argc, argv, init, fini, rtld_fini, stack_end);
  int shm, ctl, st;
  if (sscanf(fds, "%d,%d,%d", &shm, &ctl, &st) != 3) _exit(240);
  S = (void *)r_mmap64(NULL, sizeof(sim_shm), PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
  if (S == MAP_FAILED || S->magic != SIM_MAGIC) _exit(241);
  r_close(shm);
  pid_t pid = 0;
  for (;;) {
    char cmd;
    ssize_t r = r_read(ctl, &cmd, 1);
    if (r < 0 && errno == EINTR) continue;
    if (r != 1) _exit(0);
    if (cmd == 'r') {
      pid = fork();
      if (pid < 0) _exit(242);
      if (pid == 0) {
        r_close(ctl);
        r_close(st);
        setpgid(0, 0);
        child_setup(&argc, &argv);
        return real(m, argc, argv, init, fini, rtld_fini, stack_end);
      }
      int32_t hello[2] = {pid, -1};
      if (r_write(st, hello, sizeof hello) != sizeof hello) _exit(243);
    } else if (cmd == 'c') {
      r_kill(pid, SIGCONT);
    } else if (cmd == 'k') {
      r_kill(pid, SIGKILL);
      r_kill(pid, SIGCONT);
    }
    int ws;
    while (waitpid(pid, &ws, WUNTRACED) < 0 && errno == EINTR) {}
    if (!WIFSTOPPED(ws)) r_kill(-pid, SIGKILL); // stray grandchildren
    int32_t msg[2] = {pid, ws};
    if (r_write(st, msg, sizeof msg) != sizeof msg) _exit(244);
  }
}
