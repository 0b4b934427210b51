/* A formatter that does what its first argument says (see spec/Format.tla):
   r R w t e c o 0 1 k as there; besides
   a  print the other arguments, f  print the open descriptors,
   b  wait until as many of these as the third argument says wait in the directory that is the second,
   i  print a byte that is no UTF-8 */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
enum { UNIT = 65536 };
static char *Got;
static size_t NGot;
static void put(int Fd, const char *P, size_t N) {
  while (N) {
    ssize_t W = write(Fd, P, N);
    if (W <= 0) { if (errno == EINTR) continue; _exit(99); }
    P += W; N -= W;
  }
}
static void get(size_t N) {
  while (N) {
    Got = realloc(Got, NGot + UNIT);
    ssize_t R = read(0, Got + NGot, N < UNIT ? N : UNIT);
    if (R <= 0) { if (R < 0 && errno == EINTR) continue; return; }
    NGot += R; N -= R;
  }
}
int main(int argc, char **argv) {
  signal(SIGALRM, SIG_DFL);
  alarm(60);
  for (int K = 0; argv[1][K]; ++K) {
    static char Buf[UNIT + 1];
    switch (argv[1][K]) {
    case 'r': get(UNIT); break;
    case 'R': get((size_t)-1); break;
    case 'w':
    case 'e':
      memset(Buf, 'x', UNIT);
      Buf[snprintf(Buf, 60, "# own %d \xc3\xa9", K + 1)] = ' ';
      Buf[UNIT - 1] = '\n';
      put(argv[1][K] == 'w' ? 1 : 2, Buf, UNIT);
      break;
    case 't': put(1, Got, NGot); break;
    case 'c': close(0); break;
    case 'o': close(1); break;
    case '0': return 0;
    case '1': return 1;
    case 'k': kill(getpid(), SIGKILL); break;
    case 'i': put(1, "# \xff\xfe\n", 5); break;
    case 'a': for (int I = 2; I < argc; ++I) { put(1, argv[I], strlen(argv[I])); put(1, "\n", 1); } break;
    case 'f':
      for (int I = 0; I < 1024; ++I)
        if (fcntl(I, F_GETFD) != -1) put(1, Buf, snprintf(Buf, 30, "%d\n", I));
      break;
    case 'b': {
      char Path[4096];
      snprintf(Path, sizeof Path, "%s/%d", argv[2], getpid());
      close(open(Path, O_CREAT | O_WRONLY, 0600));
      for (int T = 0;; ++T) {
        int N = 0;
        DIR *D = opendir(argv[2]);
        for (struct dirent *E; D && (E = readdir(D));) N += E->d_name[0] != '.';
        if (D) closedir(D);
        if (N >= atoi(argv[3])) break;
        if (T > 3000) return 98;
        usleep(5000);
      }
    }
    }
  }
  return 0;
}
