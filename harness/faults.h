// Faults and delays for whatever is linked with this: the environment variables
//   VERIF_SCHED=seed,permille,max_us   every lock/unlock may pause before/after
//   VERIF_IO=seed,permille             reads of stdin and writes to stdout may be
//                                      short or interrupted, so may polls
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
static uint64_t Seed;
static unsigned Permille, MaxUs;
static std::atomic<unsigned> Threads;
static bool Enabled = [] {
  const char *E = getenv("VERIF_SCHED");
  unsigned long long S;
  if (!E || sscanf(E, "%llu,%u,%u", &S, &Permille, &MaxUs) != 3)
    return false;
  Seed = S;
  return true;
}();
static void maybePause() {
  static thread_local uint64_t X = 0;
  if (!Enabled)
    return;
  if (!X)
    X = (Seed + 1) * 0x9E3779B97F4A7C15ull + ++Threads * 0xBF58476D1CE4E5B9ull;
  X ^= X << 13; X ^= X >> 7; X ^= X << 17;
  if ((X >> 20) % 1000 < Permille)
    usleep((X >> 32) % MaxUs);
}
template <class F> static F real(const char *Name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, Name)); }
extern "C" int pthread_mutex_lock(pthread_mutex_t *M) {
  static auto *Real = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  maybePause();
  return Real(M);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *M) {
  static auto *Real = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  int R = Real(M);
  maybePause();
  return R;
}

static unsigned IoPermille;
static bool IoEnabled = [] {
  const char *E = getenv("VERIF_IO");
  unsigned long long S;
  if (!E || sscanf(E, "%llu,%u", &S, &IoPermille) != 2)
    return false;
  Seed = S;
  return true;
}();
static uint64_t ioRandom() {
  static thread_local uint64_t X = 0;
  if (!X)
    X = (Seed + 7) * 0x9E3779B97F4A7C15ull + ++Threads;
  X ^= X << 13; X ^= X >> 7; X ^= X << 17;
  return X >> 16;
}
extern "C" ssize_t read(int Fd, void *Buf, size_t N) {
  static auto *Real = real<ssize_t (*)(int, void *, size_t)>("read");
  if (IoEnabled && Fd == 0 && N) {
    uint64_t R = ioRandom();
    if (R % 1000 < IoPermille) {
      if ((R >> 10) % 4 == 0) { errno = EINTR; return -1; }
      N = 1 + (R >> 12) % N;
    }
  }
  return Real(Fd, Buf, N);
}
extern "C" ssize_t write(int Fd, const void *Buf, size_t N) {
  static auto *Real = real<ssize_t (*)(int, const void *, size_t)>("write");
  if (IoEnabled && Fd == 1 && N) {
    uint64_t R = ioRandom();
    if (R % 1000 < IoPermille) {
      if ((R >> 10) % 4 == 0) { errno = EINTR; return -1; }
      N = 1 + (R >> 12) % N;
    }
    ssize_t W = Real(Fd, Buf, N);
    maybePause();
    return W;
  }
  return Real(Fd, Buf, N);
}
extern "C" int poll(struct pollfd *Fds, nfds_t N, int Timeout) {
  static auto *Real = real<int (*)(struct pollfd *, nfds_t, int)>("poll");
  if (IoEnabled && ioRandom() % 1000 < IoPermille / 4) { errno = EINTR; return -1; }
  return Real(Fds, N, Timeout);
}
// between creating a descriptor and marking it
#include <cstdarg>
template <class F> static int pausedFcntl(F *Real, int Fd, int Cmd, va_list A) {
  void *Arg = va_arg(A, void *);
  if (Cmd == 2 /* F_SETFD */) { maybePause(); int R = Real(Fd, Cmd, Arg); maybePause(); return R; }
  return Real(Fd, Cmd, Arg);
}
extern "C" int fcntl(int Fd, int Cmd, ...) {
  static auto *Real = real<int (*)(int, int, ...)>("fcntl");
  va_list A; va_start(A, Cmd); int R = pausedFcntl(Real, Fd, Cmd, A); va_end(A); return R;
}
extern "C" int fcntl64(int Fd, int Cmd, ...) {
  static auto *Real = real<int (*)(int, int, ...)>("fcntl64");
  va_list A; va_start(A, Cmd); int R = pausedFcntl(Real, Fd, Cmd, A); va_end(A); return R;
}
