// Native execution of a contract function on concrete inputs: used to replay the verifier's counterexamples and to look
// for failing inputs after an obligation failed.  Not part of any proof.
#include "vp.hpp"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
struct Rec { long n; char kind[64]; char name[64][32]; long val[64]; size_t bytes; long bn; char bname[16][32]; size_t boff[16], blen[16]; unsigned long besz[16]; unsigned char data[1 << 20]; char fail[512]; long iters, ok, rejected, thrown, nontrivial; };
Rec * rec;
std::map<std::string, std::pair<unsigned char *, size_t>> live;   // input blocks of this run
jmp_buf jb;
unsigned long long rs;
unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
long rint(long lo, long hi) { if (hi <= lo) return lo; return lo + (long)(rnd() % (unsigned long)(hi - lo + 1)); }
struct Forced { std::string name; bool block; long v; std::vector<long> b; };
std::vector<Forced> forced;
std::vector<long> consts;
long scale;      // size regime of this run
bool on_throw_set, on_throw; std::string throw_label;
bool use_forced_scalars, use_forced_blocks, trace_on;
long asserts_seen;

void finish_fail(char const * label)
{ snprintf(rec->fail, sizeof rec->fail, "%s", label); _exit(77); }
}

extern "C" {
long vp_input(char const * name, long lo, long hi)
{
  long v;
  bool done = false;
  if (use_forced_scalars) for (auto & f : forced) if (!f.block && f.name == name) { v = f.v; done = true; }
  if (!done) {
    unsigned r = rnd() % 100;
    long base = lo;
    if (lo < 0 && hi > 0) { v = rint(std::max(lo, -scale), std::min(hi, scale)); }
    else if (r < 88) v = lo + rint(0, std::min(hi - lo, scale));
    else if (r < 94 && !consts.empty()) v = consts[rnd() % consts.size()] + rint(-1, 1);
    else if (r < 97) v = lo + rint(0, std::min(hi - lo, scale * 4));
    else v = (hi - lo <= 300) ? rint(lo, hi) : (rnd() & 1) ? lo : rint(lo, std::min(hi, lo + 64));
    if (scale > 1000) v = rint(lo, hi);
    (void)base;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  }
  if (v < lo || v > hi) longjmp(jb, 1);
  if (rec->n < 64) { strncpy(rec->name[rec->n], name, 31); rec->val[rec->n] = v; ++rec->n; }
  return v;
}
long vp_any(char const * name, long lo, long hi) { return vp_input(name, lo, hi); }

void * vp_block(char const * name, unsigned long n, unsigned long esz, char const * cs)
{
  if (n * esz > (1u << 19)) longjmp(jb, 1);
  unsigned char * p = static_cast<unsigned char *>(::operator new[](n * esz));
  size_t len = strlen(cs);
  live[name] = {p, n * esz};
  unsigned long rlo = 0, rhi = ~0ul;
  bool ranged = cs[0] == '#' && sscanf(cs, "#%lu,%lu", &rlo, &rhi) == 2;
  bool done = false;
  unsigned long vmask = ~0ul;
  if (cs[0] == '@') sscanf(cs, "@%lx", &vmask);
  auto put = [&](size_t i, unsigned long v) { v &= vmask; if (ranged && (v < rlo || v > rhi)) longjmp(jb, 1); if (esz > sizeof v) memset(p + i * esz, 0, esz); memcpy(p + i * esz, &v, std::min(esz, sizeof v)); };
  if (use_forced_blocks) for (auto & f : forced) if (f.block && f.name == name) {
    for (size_t i = 0; i < n; ++i) put(i, i < f.b.size() ? (unsigned long)f.b[i] : (ranged ? rlo : len ? cs[0] : 0));
    done = true;
  }
  if (!done) {
    unsigned mode = rnd() % 8;
    long dens = rint(1, 99);
    unsigned period = 1 + rnd() % 9;
    size_t special = n ? rnd() % n : 0;
    for (size_t i = 0; i < n; ++i) {
      unsigned long v;
      if (cs[0] == '@') { v = rnd(); if (mode < 4) v &= 0x0303030303030303ul; if (mode < 2) v &= 0x0000000100000001ul; }
      else if (ranged) v = mode < 3 ? rlo + rnd() % (std::min(rhi - rlo, 3ul) + 1) : mode < 5 ? rhi - rnd() % (std::min(rhi - rlo, 3ul) + 1) : rlo + rnd() % (rhi - rlo + 1);
      else if (esz == 1 && len) {
        switch (mode) {
          case 0: v = (unsigned char)cs[0]; if (i == special && len > 1) v = (unsigned char)cs[1]; break;
          case 1: v = (unsigned char)cs[len > 1 ? 1 : 0]; if (i == special) v = (unsigned char)cs[0]; break;
          case 2: v = (unsigned char)cs[((i / period) & 1) % len]; break;
          case 3: v = (unsigned char)cs[((i % period) == 0) % len]; break;
          default: v = (long)(rnd() % 100) < dens ? (unsigned char)cs[0] : (unsigned char)cs[rnd() % len];
        }
      }
      else {
        long big = esz == 1 ? 255 : 1000;
        v = mode < 5 ? rint(0, 9) : mode < 7 ? rint(0, big) : (long)rnd();
      }
      put(i, v);
    }
  }
  if (rec->bn < 16 && rec->bytes + n * esz <= sizeof rec->data) {
    strncpy(rec->bname[rec->bn], name, 31);
    rec->boff[rec->bn] = rec->bytes; rec->blen[rec->bn] = n * esz; rec->besz[rec->bn] = esz;
    memcpy(rec->data + rec->bytes, p, n * esz);
    rec->bytes += n * esz; ++rec->bn;
  }
  return p;
}
void vp_assume(bool c) { if (!c) longjmp(jb, 1); }
void vp_assert(bool c, char const * label) { ++asserts_seen; if (!c) { char b[400]; snprintf(b, sizeof b, "assertion %s", label); finish_fail(b); } }
void vp_on_throw(bool allowed, char const * label) { on_throw_set = true; on_throw = allowed; throw_label = label; }
void vp_pred_(char const *, bool (*)(void *), void *) {}
void vp_fn_(char const *, long (*)(void *, long), void *) {}
void vp_fn2_(char const *, long (*)(void *, long, long), void *) {}
void vp_forall_(char const *, bool (*)(void *, long), void *, long) {}
long vp_rand(long lo, long hi) { return rint(lo, hi); }
void vp_setup_(void (*f)(void *), void * ctx)
{
  if (use_forced_blocks) return;
  f(ctx);
  for (long i = 0; i < rec->bn; ++i) { auto it = live.find(rec->bname[i]); if (it != live.end()) memcpy(rec->data + rec->boff[i], it->second.first, rec->blen[i]); }
}
void vp_each_(char const * name, unsigned long rs, bool (*f)(void *, long), void * ctx, long n)
{
  auto it = live.find(name);
  if (it == live.end()) longjmp(jb, 1);
  for (long k = 0; k < n; ++k) {
    int t = 0;
    while (!f(ctx, k)) {
      if (use_forced_blocks || ++t > 60) longjmp(jb, 1);
      for (unsigned long j = 0; j + 4 <= rs; j += 4) { unsigned v = rint(0, 9); memcpy(it->second.first + k * rs + j, &v, 4); }
      if (rs % 4) for (unsigned long j = 0; j < rs; ++j) it->second.first[k * rs + j] = rint(0, 9);
    }
  }
  for (long k = 0; k < n; ++k) if (!f(ctx, k)) longjmp(jb, 1);   // a later record redrawn may have broken an earlier one
  for (long i = 0; i < rec->bn; ++i) if (!strcmp(rec->bname[i], name)) memcpy(rec->data + rec->boff[i], it->second.first, rec->blen[i]);
}
void vp_lemma_(char const *, bool (*)(void *, long), void *, long) {}
void vp_cell(char const *, long, long) {}
long vp_val(char const *, long v) { return v; }
void vp_cover(char const *) {}
void vp_readable(void const *, unsigned long) {}
void * vp_alloc(char const *) { abort(); }
}

#include "entries.inc"   // struct { char const * name; void (*f)(); } vp_entries[]

namespace {
void on_alarm(int) { char const * m = "does not terminate within 10 s"; memcpy(rec->fail, m, strlen(m) + 1); _exit(77); }

extern "C" int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
int once(void (*f)())
{
  for (auto & b : live) if (b.second.second > 4096 && __asan_address_is_poisoned && !__asan_address_is_poisoned(b.second.first)) ::operator delete[](b.second.first);
  live.clear();
  rec->n = rec->bn = 0; rec->bytes = 0; rec->fail[0] = 0;
  on_throw_set = false; on_throw = false; throw_label = "no exception escapes"; asserts_seen = 0;
  struct itimerval tv = {{0, 0}, {10, 0}};
  setitimer(ITIMER_REAL, &tv, nullptr);
  if (setjmp(jb) == 0) {
    try { f(); }
    catch (std::exception const & e) { if (!on_throw) { char b[400]; snprintf(b, sizeof b, "%s (exception: %s)", throw_label.c_str(), e.what()); finish_fail(b); } ++rec->thrown; return 2; }
    catch (...) { if (!on_throw) finish_fail(throw_label.c_str()); ++rec->thrown; return 2; }
    return 0;
  }
  return 1;
}

void print_rec(FILE * o, char const * entry)
{
  fprintf(o, "entry %s\n", entry);
  for (long i = 0; i < rec->n; ++i) fprintf(o, "input %s %ld\n", rec->name[i], rec->val[i]);
  for (long i = 0; i < rec->bn; ++i) {
    fprintf(o, "block %s", rec->bname[i]);
    for (size_t k = 0; k < rec->blen[i]; k += rec->besz[i]) { unsigned long v = 0; memcpy(&v, rec->data + rec->boff[i] + k, rec->besz[i]); fprintf(o, " %lu", v); }
    fprintf(o, "\n");
  }
  fprintf(o, "failure %s\n", rec->fail);
}

void load(char const * path)
{
  FILE * f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
  char * line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    char name[64]; long v; int pos;
    if (sscanf(line, "input %63s %ld", name, &v) == 2) forced.push_back({name, false, v, {}});
    else if (sscanf(line, "block %63s%n", name, &pos) == 1) {
      Forced x{name, true, 0, {}};
      char * p = line + pos, * e;
      for (;;) { unsigned long u = strtoul(p, &e, 10); if (e == p) break; x.b.push_back((long)u); p = e; }
      forced.push_back(x);
    }
  }
  free(line); fclose(f);
}
}

// usage: native <entry> replay <file>            exit 1: the failure is reproduced
//        native <entry> search <seconds> <seed> <out> [hint-file]   exit 1: failing input written to <out>
int main(int ac, char ** av)
{
  if (ac < 4) return 3;
  void (*f)() = nullptr;
  for (auto & e : vp_entries) if (!strcmp(e.name, av[1])) f = e.f;
  if (!f) { fprintf(stderr, "no entry %s\n", av[1]); return 3; }
  rec = static_cast<Rec *>(mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct rlimit rl = {1ul << 30, 1ul << 30}; setrlimit(RLIMIT_STACK, &rl);
  char const * ce = getenv("VP_CONSTS");
  if (ce) { char const * p = ce; char * e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; consts.push_back(v); p = *e ? e + 1 : e; } }
  bool replay = !strcmp(av[2], "replay");
  double secs = replay ? 0 : atof(av[3]);
  unsigned long long seed = replay ? 1 : strtoull(av[4], nullptr, 10);
  char const * out = replay ? nullptr : av[5];
  if (replay) load(av[3]);
  else if (ac > 6) load(av[6]);
  time_t t0 = time(nullptr);
  long batch = 0;
  for (;;) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      signal(SIGALRM, on_alarm);
      if (!getenv("VP_STDERR")) { freopen("/dev/null", "w", stdout); }
      rs = seed * 0x9E3779B97F4A7C15ULL + 1 + batch * 0x1000003ULL; for (int i = 0; i < 5; ++i) rnd();
      if (replay) { use_forced_scalars = use_forced_blocks = true; scale = 5; int r = once(f); ++rec->iters; if (r == 0) ++rec->ok; _exit(0); }
      for (int i = 0; i < 3000; ++i) {
        use_forced_scalars = !forced.empty() && (rnd() % 100) < (batch == 0 ? 60 : 8);
        use_forced_blocks = use_forced_scalars && (rnd() % 2 || (batch == 0 && i == 0));
        if (batch == 0 && i == 0 && !forced.empty()) use_forced_scalars = true;
        unsigned r = rnd() % 100;
        scale = r < 25 ? 2 : r < 50 ? 4 : r < 75 ? 7 : r < 90 ? 12 : r < 97 ? 20 : r < 99 ? 48 : 1 << 20;
        int k = once(f);
        ++rec->iters;
        if (k == 1) ++rec->rejected; else if (k == 0) { ++rec->ok; if (asserts_seen) ++rec->nontrivial; }
        if ((i & 15) == 0 && time(nullptr) - t0 > secs) break;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) {
      if (!rec->fail[0]) snprintf(rec->fail, sizeof rec->fail, WIFSIGNALED(st) ? "killed by signal %d" : "memory error or undefined behaviour reported by the sanitizer (exit %d)", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      if (replay) { print_rec(stdout, av[1]); return 1; }
      FILE * o = fopen(out, "w"); print_rec(o, av[1]); fclose(o);
      printf("found after %ld runs (%ld complete, %ld rejected)\n", rec->iters, rec->ok, rec->rejected);
      return 1;
    }
    if (replay) { printf("not reproduced (%s)\n", rec->ok ? "run completed" : "input rejected by a precondition"); return 0; }
    ++batch;
    if (time(nullptr) - t0 > secs) break;
  }
  printf("runs %ld complete %ld rejected %ld thrown %ld nontrivial %ld\n", rec->iters, rec->ok, rec->rejected, rec->thrown, rec->nontrivial);
  return 0;
}
