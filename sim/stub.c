// The command under test of the simulated test runner: does exactly what its arguments say.
// It only ever touches paths inside the scratch directory named by CDXSIM_ROOT.
//   o:TEXT e:TEXT   write to standard output, error     O:N:TEXT  E:N:TEXT  N times
//   F:PATH:N:TEXT   create a file with N times TEXT
//   f:PATH:TEXT     create a file    d:PATH  make a directory    r:PATH  remove a file or empty directory
//   i               copy standard input to standard output       c:PATH  copy a file to standard output
//   a:PATH:TEXT     append to a file
//   x:N             exit with status N        k:N  die from signal N
// in TEXT: \n newline, \s space, \t tab, \c colon, \b backslash, \xHH byte
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
static char buf[1 << 16];
static size_t dec(const char *s) {
  size_t n = 0;
  for (; *s && n < sizeof buf - 1; s++) {
    if (*s != '\\') { buf[n++] = *s; continue; }
    s++;
    if (*s == 'n') buf[n++] = '\n';
    else if (*s == 's') buf[n++] = ' ';
    else if (*s == 't') buf[n++] = '\t';
    else if (*s == 'c') buf[n++] = ':';
    else if (*s == 'b') buf[n++] = '\\';
    else if (*s == 'x' && s[1] && s[2]) { char h[3] = {s[1], s[2], 0}; buf[n++] = (char)strtol(h, 0, 16); s += 2; }
    else break;
  }
  return n;
}
static void put(int fd, const char *p, size_t n) {
  while (n) {
    ssize_t r = write(fd, p, n);
    if (r <= 0) _exit(98);
    p += r;
    n -= (size_t)r;
  }
}
static void inside(const char *path) {
  const char *root = getenv("CDXSIM_ROOT");
  char dir[PATH_MAX], real[PATH_MAX];
  if (root && strlen(path) < sizeof dir - 1 && strlen(root) > 4) {
    strcpy(dir, path);
    char *s = strrchr(dir, '/');
    if (s) {
      *s = 0;
      size_t n = strlen(root);
      if (realpath(dir, real) && !strncmp(real, root, n) && (real[n] == '/' || !real[n])) return;
    }
  }
  put(2, "stub: outside\n", 14);
  _exit(97);
}
static void cat(int fd) {
  static char b[65536];
  ssize_t r;
  while ((r = read(fd, b, sizeof b)) > 0) put(1, b, (size_t)r);
}
int main(int argc, char **argv) {
  struct rlimit z = {0, 0};
  setrlimit(RLIMIT_CORE, &z);
  for (int i = 1; i < argc; i++) {
    char *a = argv[i];
    if (!*a) continue;
    char *v = a[1] == ':' ? a + 2 : a + 1;
    char *t;
    int fd;
    size_t n;
    switch (*a) {
      case 'o': n = dec(v); put(1, buf, n); break;
      case 'e': n = dec(v); put(2, buf, n); break;
      case 'O': case 'E': {
        long k = strtol(v, &t, 10);
        if (*t == ':') t++;
        n = dec(t);
        while (k-- > 0) put(*a == 'O' ? 1 : 2, buf, n);
        break;
      }
      case 'f': case 'a': case 'F': {
        long k = 1;
        t = strrchr(v, ':');
        if (!t) _exit(96);
        *t++ = 0;
        if (*a == 'F') {
          char *c = strrchr(v, ':');
          if (!c) _exit(96);
          *c++ = 0;
          k = strtol(c, 0, 10);
        }
        inside(v);
        fd = open(v, O_WRONLY | O_CREAT | (*a == 'a' ? O_APPEND : O_TRUNC), 0644);
        if (fd < 0) _exit(95);
        n = dec(t);
        while (k-- > 0) put(fd, buf, n);
        close(fd);
        break;
      }
      case 'd': inside(v); if (mkdir(v, 0755)) _exit(94); break;
      case 'r': inside(v); if (unlink(v) && rmdir(v)) _exit(93); break;
      case 'i': cat(0); break;
      case 'c':
        inside(v);
        fd = open(v, O_RDONLY);
        if (fd < 0) _exit(92);
        cat(fd);
        close(fd);
        break;
      case 'x': _exit(atoi(v));
      case 'k': signal(atoi(v), SIG_DFL); raise(atoi(v)); _exit(91);
      default: _exit(90);
    }
  }
  return 0;
}
