/* Stand-in external command of the checks. Every effect stays in the current directory.
 *
 *   hx args A...         one line per argument: hex of the bytes ("-" if empty)
 *   hx argsin A...       copy stdin first, then like args
 *   hx argv0             hex of argv[0]
 *   hx out HEX           decode HEX and write it to stdout       ("-" = empty)
 *   hx err HEX           same, to stderr
 *   hx both HEX HEX      stdout, then stderr
 *   hx fill FD N SEED    N pseudo-random bytes to FD
 *   hx lines FD N SEED   N bytes of numbered lines ("%08x\n" counting from SEED) to FD
 *   hx weave N M SEED    N bytes of lines to stdout and M to stderr, alternating every 1000 bytes
 *   hx d MODE ...        read all of stdin, then do MODE
 *   hx errcat            copy stdin to stderr
 *   hx cat               copy stdin to stdout
 *   hx hexcat            hex of stdin, then newline
 *   hx tag T             hex(T) + ":" + stdin copied
 *   hx up                copy stdin, ASCII letters upper-cased
 *   hx rev               reverse all bytes of stdin
 *   hx count             number of bytes of stdin, CRC-32
 *   hx exit N            exit with status N
 *   hx say HEX N         write to stdout, exit with status N
 *   hx catexit N         copy stdin, exit N
 *   hx drain N           read all of stdin, exit N
 *   hx kill SIG          kill itself with the signal
 *   hx env NAME...       hex of each variable's value ("!" if unset), one line each
 *   hx cwd               hex of the working directory
 *   hx log FILE HEX      append HEX-decoded + newline to FILE (O_APPEND, one write)
 *   hx logexit FILE HEX N   log, then exit N
 *   hx wait FILE         wait until FILE exists (10 s at most; exit 9 if it does not)
 *   hx meet FILE HEX FILE2 [N]  wait for FILE ("-": do not), then log HEX to FILE2 and exit N
 *   hx slog MS FILE HEX  sleep, then log
 *   hx head N            read at most N bytes of stdin, copy them, and exit
 *   hx ppid              parent pid / own pid
 *   hx rss               resident memory of the parent, in kB
 *   hx probe FILE        append to FILE what the parent holds besides its streams and this process ("clean": nothing),
 *                        once there is nothing, or after a while
 * With HXREPORT in the environment, each first appends to that file what it was started with ("ok": nothing unusual).
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>

static void wr(int fd, const char *p, size_t n) {
  while (n) {
    ssize_t k = write(fd, p, n);
    if (k < 0) { if (errno == EINTR) continue; _exit(74); }
    p += k; n -= k;
  }
}
static void hexout(int fd, const unsigned char *p, size_t n) {
  char *b = malloc(2 * n + 3); size_t j = 0;
  static const char *d = "0123456789abcdef";
  if (!n) b[j++] = '-';
  for (size_t i = 0; i < n; i++) { b[j++] = d[p[i] >> 4]; b[j++] = d[p[i] & 15]; }
  b[j++] = '\n';
  wr(fd, b, j); free(b);
}
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t unhex(const char *s, char **out) {
  size_t n = strlen(s); *out = malloc(n + 2);
  if (!strcmp(s, "-")) return 0;
  for (size_t i = 0; i + 1 < n; i += 2) (*out)[i / 2] = hv(s[i]) * 16 + hv(s[i + 1]);
  return n / 2;
}
static void outhex(int fd, const char *s) { char *b; size_t n = unhex(s, &b); wr(fd, b, n); }
static char *slurp(size_t *n) {
  size_t cap = 1 << 16; char *b = malloc(cap); *n = 0;
  for (;;) {
    if (*n == cap) b = realloc(b, cap *= 2);
    ssize_t k = read(0, b + *n, cap - *n);
    if (k < 0) { if (errno == EINTR) continue; _exit(75); }
    if (!k) return b;
    *n += k;
  }
}
static void log_(const char *file, const char *hex) {
  char *b; size_t n = unhex(hex, &b); b[n++] = '\n';
  int fd = open(file, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) _exit(76);
  wr(fd, b, n); close(fd);
}
static char *lines(long n, unsigned long seed) {
  char *b = malloc(n + 16);
  for (long i = 0; i < n; i += 9) sprintf(b + i, "%08lx\n", seed++ & 0xffffffff);
  return b;
}
static void append(const char *file, char *b) {
  size_t n = strlen(b); b[n++] = '\n';
  int fd = open(file, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) _exit(76);
  wr(fd, b, n); close(fd);
}
/* What this process was started with, besides its streams. */
static void report(const char *file) {
  char b[4096]; int k = 0;
  for (int fd = 0; fd < 64; fd++) if ((fcntl(fd, F_GETFD) >= 0) != (fd < 3)) k += sprintf(b + k, "fd %d %s, ", fd, fd < 3 ? "is closed" : "is open");
  sigset_t m; sigprocmask(SIG_SETMASK, 0, &m);
  for (int s = 1; s < 65; s++) {
    struct sigaction a;
    if (k < 3000 && !sigaction(s, 0, &a) && a.sa_handler != SIG_DFL) k += sprintf(b + k, "signal %d ignored, ", s);
    if (k < 3000 && sigismember(&m, s) == 1) k += sprintf(b + k, "signal %d blocked, ", s);
  }
  mode_t u = umask(0);
  umask(u);
  if (u != 022) k += sprintf(b + k, "umask %o, ", (unsigned)u);
  if (getpgid(0) != getpgid(getppid())) k += sprintf(b + k, "process group, ");
  if (getsid(0) != getsid(getppid())) k += sprintf(b + k, "session, ");
  if (!k) strcpy(b, "ok");
  append(file, b);
}
static int numbers(const char *path, int *v, int max) {
  DIR *d = opendir(path); int n = 0; struct dirent *e;
  if (!d) return -1;
  while ((e = readdir(d))) if (e->d_name[0] != '.' && n < max) v[n++] = atoi(e->d_name);
  closedir(d);
  return n;
}
/* What the parent holds besides its streams, one thread and this process. */
static int probe(char *b) {
  char path[300]; int v[256], k = 0, p = getppid();
  b[0] = 0;
  sprintf(path, "/proc/%d/fd", p);
  int n = numbers(path, v, 256);
  if (n < 0) return sprintf(b, "unreadable");
  for (int i = 0; i < n; i++) if (v[i] > 2) k += sprintf(b + k, "fd %d, ", v[i]);
  sprintf(path, "/proc/%d/task", p);
  n = numbers(path, v, 256);
  if (n != 1) k += sprintf(b + k, "%d threads, ", n);
  for (int i = 0; i < n; i++) {
    sprintf(path, "/proc/%d/task/%d/children", p, v[i]);
    FILE *f = fopen(path, "r"); int c;
    if (!f) continue;
    while (fscanf(f, "%d", &c) == 1) if (c != getpid() && k < 3500) {
      char l[512] = "", st = '?', *q; char pp[64];
      sprintf(pp, "/proc/%d/stat", c);
      FILE *g = fopen(pp, "r");
      if (g) { if (fgets(l, sizeof l, g) && (q = strrchr(l, ')'))) st = q[2]; fclose(g); }
      k += sprintf(b + k, "child in state %c, ", st);
    }
    fclose(f);
  }
  return k;
}
int main(int c, char **v) {
  if (c < 2) return 64;
  if (getenv("HXREPORT")) report(getenv("HXREPORT"));
  if (!strcmp(v[1], "probe") && c == 3) {
    static char b[8192];
    int tries = 2400;
    FILE *f = fopen(v[2], "r");
    while (f && fgets(b, sizeof b, f)) if (strcmp(b, "clean\n")) tries = 1;
    if (f) fclose(f);
    for (int i = 0; probe(b) && i < tries; i++) { struct timespec t = {0, i < 100 ? 1000000 : 5000000}; nanosleep(&t, 0); }
    if (!*b) strcpy(b, "clean");
    append(v[2], b);
    return 0;
  }
  if (!strcmp(v[1], "d") && c > 2) { size_t k; slurp(&k); v++; c--; }
  const char *m = v[1];
#define IS(x) (!strcmp(m, x))
  if (IS("args")) { for (int i = 2; i < c; i++) hexout(1, (unsigned char *)v[i], strlen(v[i])); return 0; }
  if (IS("argsin")) { size_t k; char *b = slurp(&k); wr(1, b, k); for (int i = 2; i < c; i++) hexout(1, (unsigned char *)v[i], strlen(v[i])); return 0; }
  if (IS("argv0")) { hexout(1, (unsigned char *)v[0], strlen(v[0])); return 0; }
  if (IS("out") && c == 3) { outhex(1, v[2]); return 0; }
  if (IS("err") && c == 3) { outhex(2, v[2]); return 0; }
  if (IS("both") && c == 4) { outhex(1, v[2]); outhex(2, v[3]); return 0; }
  if (IS("fill") && c == 5) {
    int fd = atoi(v[2]); long n = atol(v[3]); uint64_t x = strtoull(v[4], 0, 10) * 2654435761u + 88172645463325252ull;
    char b[4096];
    while (n > 0) {
      size_t k = n > (long)sizeof b ? sizeof b : (size_t)n;
      for (size_t i = 0; i < k; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (char)(x >> 24); }
      wr(fd, b, k); n -= k;
    }
    return 0;
  }
  if (IS("lines") && c == 5) { long k = atol(v[3]); wr(atoi(v[2]), lines(k, strtoul(v[4], 0, 10)), k); return 0; }
  if (IS("weave") && c == 5) {
    long a = atol(v[2]), b = atol(v[3]), i = 0, j = 0; unsigned long s = strtoul(v[4], 0, 10);
    char *p = lines(a, s), *q = lines(b, s + 1000000);
    while (i < a || j < b) {
      long k = a - i < 1000 ? a - i : 1000; wr(1, p + i, k); i += k;
      k = b - j < 1000 ? b - j : 1000; wr(2, q + j, k); j += k;
    }
    return 0;
  }
  size_t n;
  if (IS("errcat")) { char *b = slurp(&n); wr(2, b, n); return 0; }
  if (IS("cat")) { char *b = slurp(&n); wr(1, b, n); return 0; }
  if (IS("hexcat")) { char *b = slurp(&n); hexout(1, (unsigned char *)b, n); return 0; }
  if (IS("tag") && c == 3) { char *b = slurp(&n); char *o = malloc(strlen(v[2]) + n + 2); sprintf(o, "%s:", v[2]); size_t k = strlen(o); memcpy(o + k, b, n); wr(1, o, k + n); return 0; }
  if (IS("up")) { char *b = slurp(&n); for (size_t i = 0; i < n; i++) if (b[i] >= 'a' && b[i] <= 'z') b[i] -= 32; wr(1, b, n); return 0; }
  if (IS("rev")) { char *b = slurp(&n); for (size_t i = 0; i < n / 2; i++) { char t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; } wr(1, b, n); return 0; }
  if (IS("count")) {
    char *b = slurp(&n); static uint32_t tab[256]; uint32_t h = 0xffffffffu;
    for (uint32_t i = 0; i < 256; i++) { uint32_t x = i; for (int q = 0; q < 8; q++) x = x & 1 ? (x >> 1) ^ 0xedb88320u : x >> 1; tab[i] = x; }
    for (size_t i = 0; i < n; i++) h = tab[(h ^ (unsigned char)b[i]) & 255] ^ (h >> 8);
    char o[64]; int k = sprintf(o, "%zu %08x\n", n, (unsigned)~h); wr(1, o, k); return 0;
  }
  if (IS("exit") && c == 3) return atoi(v[2]);
  if (IS("say") && c == 4) { outhex(1, v[2]); return atoi(v[3]); }
  if (IS("catexit") && c == 3) { char *b = slurp(&n); wr(1, b, n); return atoi(v[2]); }
  if (IS("drain") && c == 3) { slurp(&n); return atoi(v[2]); }
  if (IS("kill") && c == 3) {
    /* Whatever was inherited, the signal is not ignored or blocked. */
    sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0); signal(atoi(v[2]), SIG_DFL);
    raise(atoi(v[2])); pause(); return 77;
  }
  if (IS("env")) {
    for (int i = 2; i < c; i++) { const char *e = getenv(v[i]); if (!e) wr(1, "!\n", 2); else hexout(1, (const unsigned char *)e, strlen(e)); }
    return 0;
  }
  if (IS("cwd")) { char b[8192]; if (!getcwd(b, sizeof b)) return 78; hexout(1, (unsigned char *)b, strlen(b)); return 0; }
  if (IS("log") && c == 4) { log_(v[2], v[3]); return 0; }
  if (IS("logexit") && c == 5) { log_(v[2], v[3]); return atoi(v[4]); }
  if (IS("wait") && c == 3) {
    for (int i = 0; i < 10000; i++) { if (!access(v[2], F_OK)) return 0; struct timespec t = {0, 1000000}; nanosleep(&t, 0); }
    return 9;
  }
  if (IS("meet") && (c == 5 || c == 6)) {
    if (strcmp(v[2], "-")) {
      int i = 0;
      for (; i < 10000 && access(v[2], F_OK); i++) { struct timespec t = {0, 500000}; nanosleep(&t, 0); }
      if (i == 10000) return 9;
    }
    log_(v[4], v[3]); return c == 6 ? atoi(v[5]) : 0;
  }
  if (IS("slog") && c == 5) { struct timespec t = {0, atol(v[2]) * 1000000}; nanosleep(&t, 0); log_(v[3], v[4]); return 0; }
  if (IS("head") && c == 3) {
    size_t want = atol(v[2]), got = 0; char *b = malloc(want + 1);
    while (got < want) { ssize_t k = read(0, b + got, want - got); if (k < 0) { if (errno == EINTR) continue; return 75; } if (!k) break; got += k; }
    wr(1, b, got); return 0;
  }
  if (IS("rss")) {
    char path[64], line[256]; long kb = -1;
    sprintf(path, "/proc/%d/status", (int)getppid());
    FILE *f = fopen(path, "r");
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "VmRSS: %ld", &kb) == 1) break;
    int k = sprintf(line, "%ld\n", kb); wr(1, line, k); return 0;
  }
  if (IS("ppid")) { char o[64]; int k = sprintf(o, "%d %d\n", (int)getppid(), (int)getpid()); wr(1, o, k); return 0; }
  return 64;
}
