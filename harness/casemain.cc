// Supervisor for programs made of cases: runs them in a child process, restarting after a failure.
#include "cases.h"

#include <stdlib.h>

#include <algorithm>
#include <set>
#include <vector>

#include "supervise.h"

namespace vt {
Case* all_cases;
const char* case_name = "";
bool thorough;
void seen(mon::Labels l, std::uint64_t s) {
  if (mon::cover_want_sample(l)) {
    mon::Internal g;
    mon::cover(l, s, std::string(case_name) + " " + mon::sh->hist);
  } else {
    mon::cover_fast(l, s);
  }
}
}  // namespace vt
using namespace vt;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_abort=0"; }

namespace {
std::uint64_t seed = 1;

void run_case(Case* c, long rep) {
  mon::sh->reported = 0;
  mon::sh->ctx = 0;
  mon::sh->phase = 0;
  mon::sh->sticky = 0;
  mon::sh->op_labels = c->labels;
  case_name = c->name;
  mon::reset_case();
  mon::hist_reset();
  mon::Rng g(mon::fnv(std::string(c->name), seed * 1000003 + static_cast<std::uint64_t>(rep)));
  c->fn(g);
  mon::sh->ctx = 0;
  if (mon::live_objs() != 0 || mon::live_blocks() != 0)
    mon::fail(c->labels | mon::L(1), "leak-at-end", "left behind by case %s: %s", c->name,
              mon::describe_live().c_str());
}
}  // namespace

int main(int argc, char** argv) {
  double scale = 1;
  const char *cov = nullptr, *report = nullptr, *only = nullptr;
  long only_rep = -1, max_bad = 40;
  int shard = 0, nshards = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed")
      seed = strtoull(v, nullptr, 10), ++i;
    else if (a == "--scale")
      scale = atof(v), ++i;
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--shard")
      sscanf(v, "%d/%d", &shard, &nshards), ++i;
    else if (a == "--cov")
      cov = v, ++i;
    else if (a == "--report")
      report = v, ++i;
    else if (a == "--only")
      only = v, ++i;
    else if (a == "--rep")
      only_rep = atol(v), ++i;
    else if (a == "--focus")
      mon::focus = static_cast<Labels>(strtoul(v, nullptr, 16)), ++i;
    else if (a == "--max-bad")
      max_bad = atol(v), ++i;
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  mon::init_shared();
  struct Job {
    Case* c;
    long rep;
  };
  std::vector<Job> jobs;
  std::vector<Case*> cs;
  for (Case* c = all_cases; c; c = c->next) cs.push_back(c);
  std::sort(cs.begin(), cs.end(),
            [](Case* a, Case* b) { return std::string(a->name) < b->name; });
  long idx = 0;
  for (Case* c : cs) {
    if (only && std::string(only) != c->name) continue;
    long n = c->repeat > 1 ? static_cast<long>(c->repeat * scale) : c->repeat;
    if (n < 1) n = 1;
    for (long r = 0; r < n; ++r) {
      if (only_rep >= 0 && r != only_rep) continue;
      if (idx++ % nshards == shard) {
        Job j = {c, r};
        jobs.push_back(j);
      }
    }
  }
  FILE* rep = report ? fopen(report, "w") : stdout;
  if (!rep) return 2;
  long bad = 0, unrelated = 0;
  std::size_t next = 0, end = jobs.size();
  std::set<std::size_t> retried;
  while (next < end) {
    fflush(nullptr);
    mon::sh->cur = static_cast<long>(next);
    mon::sh->done = 0;
    mon::sh->reported = 0;
    mon::sh->hist_len = 0;
    mon::sh->hist[0] = 0;
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      for (std::size_t i = next; i < end; ++i) {
        mon::sh->cur = static_cast<long>(i);
        mon::sh->progress = mon::sh->progress + 1;
        run_case(jobs[i].c, jobs[i].rep);
      }
      if (cov) mon::cover_save(cov);
      mon::sh->done = 1;
      fflush(nullptr);
      _exit(0);
    }
    bool hung = false;
    int st = wait_child(pid, 60, &hung);
    if (mon::sh->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    std::size_t at = static_cast<std::size_t>(mon::sh->cur);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 4)) {
      fprintf(stderr, "harness error in case %s\n", jobs[at].c->name);
      return 2;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung) {
      fprintf(stderr, "child killed from outside\n");
      return 2;
    }
    if (hung && retried.insert(at).second) {
      next = at;
      continue;
    }
    Labels l;
    const char* oracle;
    char text[2300];
    if (mon::sh->reported) {
      l = mon::sh->viol_labels;
      oracle = mon::sh->viol_oracle;
      snprintf(text, sizeof text, "%s", mon::sh->viol_text);
      if (!l && std::string(oracle) == "harness") {
        fprintf(stderr, "harness error: %s\n", text);
        return 2;
      }
    } else {
      l = mon::sh->op_labels | mon::sh->ctx | mon::L(1);
      oracle = hung ? "hang" : "crash";
      if (hung)
        snprintf(text, sizeof text, "case %s did not finish", jobs[at].c->name);
      else if (WIFSIGNALED(st))
        snprintf(text, sizeof text, "case %s: process died of signal %d (see the log)",
                 jobs[at].c->name, WTERMSIG(st));
      else
        snprintf(text, sizeof text, "case %s: process exited with status %d (sanitizer report, see the log)",
                 jobs[at].c->name, WEXITSTATUS(st));
    }
    next = at + 1;
    if (mon::focus && !(l & mon::focus)) {
      ++unrelated;
      continue;
    }
    ++bad;
    fprintf(rep, "{\"labels\":\"%s\",\"oracle\":", labels_str(l).c_str());
    json_str(rep, oracle);
    fprintf(rep, ",\"subject\":");
    json_str(rep, jobs[at].c->name);
    fprintf(rep, ",\"case\":%zu,\"index\":%ld,\"text\":", at, jobs[at].rep);
    json_str(rep, text);
    fprintf(rep, ",\"history\":");
    json_str(rep, mon::sh->hist);
    fprintf(rep, "}\n");
    fflush(rep);
    if (bad >= max_bad) break;
  }
  fprintf(rep, "{\"end\":true,\"jobs\":%zu,\"subjects\":%zu,\"bad\":%ld,\"unrelated\":%ld}\n", end,
          cs.size(), bad, unrelated);
  if (rep != stdout) fclose(rep);
  return bad ? 3 : 0;
}
