/* Gives every chosen proper prefix of a file to a program and reports how it
 * ended.  prefixes PROGRAM FILE DIR LIMIT_S LEN...   (lengths on stdin, one per line)
 * Output: one line per length: LEN EXITCODE | LEN signal N | LEN hang */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
int main(int argc, char **argv) {
  char in[4096], out[4096], line[100];
  static char buf[1 << 16];
  double limit;
  int hangs = 0;
  sigset_t chld;
  if (argc != 5) return 2;
  limit = atof(argv[4]);
  snprintf(in, sizeof in, "%s/in", argv[3]);
  snprintf(out, sizeof out, "%s/out", argv[3]);
  sigemptyset(&chld); sigaddset(&chld, SIGCHLD);
  sigprocmask(SIG_BLOCK, &chld, 0);
  while (fgets(line, sizeof line, stdin)) {
    long len = atol(line), left = len;
    int sf = open(argv[2], O_RDONLY), df = open(in, O_CREAT | O_TRUNC | O_WRONLY, 0600), st;
    pid_t p;
    double t0;
    if (sf < 0 || df < 0) return 2;
    while (left > 0) { ssize_t n = read(sf, buf, left < (long)sizeof buf ? left : (long)sizeof buf); if (n <= 0 || write(df, buf, n) != n) return 2; left -= n; }
    close(sf); close(df);
    p = fork();
    if (p == 0) {
      int nul = open("/dev/null", O_RDWR);
      struct rlimit rl = {1024l << 20, 1024l << 20};
      struct rlimit core = {0, 0};
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setrlimit(RLIMIT_FSIZE, &rl);
      setrlimit(RLIMIT_CORE, &core);
      sigprocmask(SIG_UNBLOCK, &chld, 0);
      dup2(nul, 2);
      if (len & 1) {
        int fd = open(in, O_RDONLY);
        dup2(fd, 0); dup2(nul, 1);
        execl(argv[1], argv[1], "-i", "-c", (char *)0);
      } else {
        dup2(nul, 0); dup2(nul, 1);
        execl(argv[1], argv[1], in, out, (char *)0);
      }
      _exit(126);
    }
    if (p < 0) return 2;
    t0 = now();
    for (;;) {
      pid_t w = waitpid(p, &st, WNOHANG);
      struct timespec ts = {1, 0};
      if (w == p) break;
      if (w < 0 && errno != EINTR) return 2;
      if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); st = -1; break; }
      sigtimedwait(&chld, 0, &ts);
    }
    if (st == -1) { printf("%ld hang\n", len); if (++hangs == 2) return 0; }
    else if (WIFSIGNALED(st)) printf("%ld signal %d\n", len, WTERMSIG(st));
    else printf("%ld %d\n", len, WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}
