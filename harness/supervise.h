// Helpers shared by the supervisors (engine.cc, casemain.cc).
#ifndef VT_SUPERVISE_H
#define VT_SUPERVISE_H
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <string>

#include "mon.h"

namespace {
using mon::Labels;

void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\')
      fprintf(f, "\\%c", *s);
    else if (*s == '\n')
      fputs("\\n", f);
    else if (static_cast<unsigned char>(*s) < 32)
      fputc(' ', f);
    else
      fputc(*s, f);
  }
  fputc('"', f);
}

std::string labels_str(Labels l) {
  std::string s;
  for (int i = 1; i < 32; ++i)
    if (l >> i & 1) {
      char b[8];
      snprintf(b, sizeof b, "%sC%02d", s.empty() ? "" : ",", i);
      s += b;
    }
  return s;
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

// waits for the child; kills it when one operation makes no progress for `limit` seconds
int wait_child(pid_t pid, double limit, bool* hung) {
  long last = -1;
  double since = now();
  *hung = false;
  unsigned nap = 200;
  for (;;) {
    int st = 0;
    pid_t p = waitpid(pid, &st, WNOHANG);
    if (p == pid) return st;
    if (p < 0 && errno != EINTR) return -1;
    long pr = mon::sh->progress;
    if (pr != last) {
      last = pr;
      since = now();
    } else if (now() - since > limit) {
      kill(pid, SIGKILL);
      *hung = true;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
      }
      return st;
    }
    usleep(nap);
    if (nap < 20000) nap *= 2;
  }
}


}  // namespace
#endif
