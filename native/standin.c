/* Stand-in analyser: logs its invocation and behaves as its plan says.
   Plan file $STANDIN_PLAN/<tag>, where <tag> comes from the -DTAG=<tag>
   argument; lines:  o <file-offset> <len> | e <offset> <len> | s <microsec>
   | x <status> | k <signal>.  Bytes come from <tag>.bin. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <time.h>
#include <unistd.h>

static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void event(const char* dir, const char* what, int argc, char** argv) {
  char buf[65536];
  char cwd[4096];
  int n, i;
  char path[4200];
  if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
  n = snprintf(buf, sizeof buf, "%s%c%.6f%c%d%c%s", what, 1, now(), 1,
               (int)getpid(), 1, cwd);
  for (i = 1; i < argc; ++i)
    n += snprintf(buf + n, sizeof buf - n, "%c%s", 1, argv[i]);
  buf[n++] = 2;
  snprintf(path, sizeof path, "%s/events", dir);
  int fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0666);
  flock(fd, LOCK_EX);
  if (write(fd, buf, n) != n) abort();
  close(fd);
}

static void put(int fd, const char* p, long n) {
  while (n > 0) {
    long k = write(fd, p, n);
    if (k <= 0) return;
    p += k;
    n -= k;
  }
}

int main(int argc, char** argv) {
  const char* dir = getenv("STANDIN_PLAN");
  const char* tag = "none";
  char path[4200], kind;
  long a, b;
  int i, rc = 0;
  for (i = 1; i < argc; ++i)
    if (!strncmp(argv[i], "-DTAG=", 6)) tag = argv[i] + 6;
  event(dir, "start", argc, argv);
  snprintf(path, sizeof path, "%s/%s.bin", dir, tag);
  FILE* f = fopen(path, "rb");
  static char bytes[4 << 20];
  long len = f ? (long)fread(bytes, 1, sizeof bytes, f) : 0;
  snprintf(path, sizeof path, "%s/%s.plan", dir, tag);
  FILE* plan = fopen(path, "r");
  while (plan && fscanf(plan, " %c %ld", &kind, &a) == 2) {
    if (kind == 'o' || kind == 'e') {
      if (fscanf(plan, "%ld", &b) != 1 || a + b > len) abort();
      put(kind == 'o' ? 1 : 2, bytes + a, b);
    } else if (kind == 's') {
      usleep(a);
    } else if (kind == 'x') {
      rc = (int)a;
    } else if (kind == 'k') {
      event(dir, "end", 0, argv);
      signal((int)a, SIG_DFL);
      kill(getpid(), (int)a);
      pause();
    }
  }
  event(dir, "end", 0, argv);
  return rc;
}
