// Fork server around the real main() of one apertium tool (renamed to
// tool_main with objcopy).
//
// A request batch arrives on the original fd 0, answers leave on the original
// fd 1.  In "single" mode every case runs in its own forked child.  In "batch"
// mode one child runs main() repeatedly for consecutive cases with the same
// argv (stdio, getopt and scanner state reset in between); if a case kills the
// child, that case is answered with the signal and the rest goes on in a new
// child.  Any verdict reached from a batch answer is confirmed by the driver in
// single mode before it is reported, so leftovers between cases cannot raise an
// alarm.  Every case has CPU, memory and output limits.  After two cases of a
// batch that died slowly (time-out, memory) the rest is answered as "skipped".
#include <cstdint>
#include <cstdio>
#include <stdio_ext.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <getopt.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ctime>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>

extern "C" int tool_main(int, char **);
int yylex_destroy() __attribute__((weak));

static bool in_batch = false;
static jmp_buf jb;
static int exit_code;

// exit() and fclose(stdio) of the tool (or of the libraries under it)
extern "C" void exit(int rc) {
  if (in_batch) { exit_code = rc; longjmp(jb, 1); }
  typedef void (*F)(int);
  ((F)dlsym(RTLD_NEXT, "exit"))(rc);
  _exit(rc);
}
extern "C" int fclose(FILE *f) {
  if (in_batch && (f == stdin || f == stdout || f == stderr)) return fflush(f);
  typedef int (*F)(FILE *);
  return ((F)dlsym(RTLD_NEXT, "fclose"))(f);
}

static bool rd(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= r; }
  return true;
}
static void wr(int fd, const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) { ssize_t r = write(fd, c, n); if (r <= 0) _exit(3); c += r; n -= r; }
}
static uint32_t u32(int fd, bool &ok) { uint32_t x = 0; if (!rd(fd, &x, 4)) ok = false; return x; }

struct Req { std::vector<std::string> args; std::string in; };
static int fin, fout, ferr, rout;
static int cpu = 4;
static size_t as_lim = 1500ul << 20;

static void answer(int st) {
  off_t ol = lseek(fout, 0, SEEK_END), el = lseek(ferr, 0, SEEK_END);
  if (el > 16384) el = 16384;
  int32_t s32 = st; uint32_t o32 = ol, e32 = el;
  std::vector<char> ans(12 + ol + el);
  memcpy(&ans[0], &s32, 4); memcpy(&ans[4], &o32, 4);
  if (ol && pread(fout, &ans[8], ol, 0) != ol) _exit(5);
  memcpy(&ans[8 + ol], &e32, 4);
  if (el && pread(ferr, &ans[12 + ol], el, 0) != el) _exit(5);
  wr(rout, ans.data(), ans.size());
}
static void load(const Req &r) {
  if (ftruncate(fin, 0) || ftruncate(fout, 0) || ftruncate(ferr, 0)) _exit(4);
  lseek(fout, 0, SEEK_SET); lseek(ferr, 0, SEEK_SET);
  if (!r.in.empty() && pwrite(fin, r.in.data(), r.in.size(), 0) != (ssize_t)r.in.size()) _exit(4);
  lseek(fin, 0, SEEK_SET);
}
static void limits() {
  struct rlimit l;
  l.rlim_cur = l.rlim_max = 8 << 20; setrlimit(RLIMIT_FSIZE, &l);
  if (as_lim) { l.rlim_cur = l.rlim_max = as_lim; setrlimit(RLIMIT_AS, &l); }
  l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l);
}
static volatile double *began;
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void timer() {
  *began = now();
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &t, 0);
}

int main() {
  int rin = dup(0); rout = dup(1);
  fcntl(rin, F_SETFD, FD_CLOEXEC); fcntl(rout, F_SETFD, FD_CLOEXEC);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0); dup2(nul, 1);
  if (const char *e = getenv("FS_CPU")) cpu = atoi(e);
  if (const char *e = getenv("FS_AS")) as_lim = strtoul(e, 0, 10);
  fin = memfd_create("in", 0); fout = memfd_create("out", 0); ferr = memfd_create("err", 0);
  volatile uint32_t *done = (volatile uint32_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  began = (volatile double *)((char *)done + 64);
  while (true) {
    bool ok = true;
    uint32_t nreq = u32(rin, ok), batch = u32(rin, ok);
    if (!ok) return 0;
    std::vector<Req> reqs(nreq);
    for (auto &q : reqs) {
      uint32_t na = u32(rin, ok);
      for (uint32_t i = 0; i < na && ok; i++) {
        uint32_t n = u32(rin, ok); std::string s(n, 0);
        if (n && !rd(rin, &s[0], n)) return 0;
        q.args.push_back(s);
      }
      uint32_t n = u32(rin, ok);
      if (!ok) return 0;
      q.in.resize(n);
      if (n && !rd(rin, &q.in[0], n)) return 0;
    }
    size_t i = 0;
    int slow = 0;           // cases of this batch that died after a second or more
    while (i < nreq) {
      if (slow >= 2) {      // answered as "skipped"; the driver decides
        load(Req());
        answer(-1); i++;
        continue;
      }
      size_t e = i + 1;
      if (batch) while (e < nreq && reqs[e].args == reqs[i].args) e++;
      *done = i;
      load(reqs[i]);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2);
        limits();
        if (!batch) {
          timer();
          std::vector<char *> av;
          for (auto &s : reqs[i].args) av.push_back(&s[0]);
          av.push_back(nullptr);
          int rc = tool_main((int)reqs[i].args.size(), av.data());
          exit(rc);
        }
        for (volatile size_t k = i; k < e; k++) {
          if (k != i) {
            load(reqs[k]);
            __fpurge(stdin); clearerr(stdin);
            std::cin.clear(); std::cout.clear();
            optind = 0; opterr = 1;
            if (yylex_destroy) yylex_destroy();
          }
          std::vector<std::string> *as = new std::vector<std::string>(reqs[k].args);
          std::vector<char *> *av = new std::vector<char *>;
          for (auto &s : *as) av->push_back(&s[0]);
          av->push_back(nullptr);
          timer();
          in_batch = true;
          volatile int rc = 0;
          if (setjmp(jb) == 0) rc = tool_main((int)as->size(), av->data());
          else rc = exit_code;
          in_batch = false;
          std::cout.flush(); fflush(stdout); std::cerr.flush(); fflush(stderr);
          answer((rc & 255) << 8);
          *done = k + 1;
        }
        _exit(0);
      }
      int st = -1;
      if (p < 0) { usleep(20000); continue; }
      while (waitpid(p, &st, 0) < 0) ;
      if (!batch) { answer(st); i++; continue; }
      i = *done;
      if (i < e) {
        answer(st); i++;
        if (now() - *began > 1.0) slow++;
      }
    }
  }
}
