// Bounded native run of the operand contracts over harness/irn.cpp; every case runs in its own process.  usage: drv seed trials out
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <vector>
#include <algorithm>
struct Case;
namespace codon { namespace ir { namespace types { struct Type; } } }
extern "C" {
void *h_nmodule(); void h_ncases(); void h_nmax(int); int64_t h_ncount(); Case *h_ncase(int64_t); const char *h_nname(Case *); int64_t h_nslots(Case *, int); int h_nreplaceable(Case *);
void *h_norig(Case *, int, int64_t); void *h_nget(Case *, int, int64_t); int64_t h_nused(Case *, int); int64_t h_nusedc(Case *, int); void *h_nusedi(Case *, int, int64_t); void *h_nnew(int);
int h_nreplace_id(Case *, int, int64_t, void *); int h_nreplace_ty(Case *, void *, void *); int h_nreplace_old(Case *, int, void *, void *); void h_nsetid(int, void *, int64_t); int64_t h_ngetid(int, void *);
void *h_ntype(Case *); void *h_nexptype(Case *); void *h_nty(int); void h_nalias(Case *, Case *); int h_nkind(Case *);
int h_nsametyname(void *, void *);
}
static const char *W[] = {"values", "variables", "types"};
typedef std::vector<void *> L;
static L slots(Case *c, int w) { L r; for (int64_t i = 0; i < h_nslots(c, w); i++) r.push_back(h_nget(c, w, i)); return r; }
static L used(Case *c, int w, bool k) { int64_t n = k ? h_nusedc(c, w) : h_nused(c, w); L r; for (int64_t i = 0; i < n; i++) r.push_back(h_nusedi(c, w, i)); std::sort(r.begin(), r.end()); return r; }
static FILE *out;
static void bad(Case *c, int w, const char *what, int t) { fprintf(out, "F %s|%s|%s|%d\n", h_nname(c), w < 0 ? "node" : W[w], what, t); fflush(out); }
static void check_case(int64_t ci, std::mt19937_64 &g, int trials) {
  Case *c = h_ncase(ci);
  if (h_nkind(c) == 2) { // types: children only
    L r; for (int64_t i = 0; i < h_nslots(c, 2); i++) r.push_back(h_norig(c, 2, i)); std::sort(r.begin(), r.end());
    if (used(c, 2, 0) != r) bad(c, 2, "the types reported are not the types held", 0);
    return;
  }
  for (int t = 0; t < trials; t++) for (int w = 0; w < 3; w++) {
    auto s = slots(c, w), sr = s; std::sort(sr.begin(), sr.end());
    if (used(c, w, 0) != sr || (w < 2 && used(c, w, 1) != sr)) { bad(c, w, "the operands reported are not the operands held", t); return; }
    if (t == 0 && w == 0 && h_nexptype(c) && h_ntype(c) != h_nexptype(c)) { bad(c, -1, "type of the node does not follow from its operands", t); return; }
    int mode = g() % 3; void *nw = h_nnew(w); auto other0 = slots(c, (w + 1) % 3), other1 = slots(c, (w + 2) % 3); std::vector<bool> hit; int n, exp = 0;
    if (w < 2) {
      for (auto *x : s) h_nsetid(w, x, (int64_t)(g() % 3) - 1 + ((g() & 7) == 0 ? (1LL << 40) : 0)); // positions often share an identity
      void *o = s.empty() || mode == 0 ? h_nnew(w) : s[g() % s.size()];
      if (mode == 0) h_nsetid(w, o, (int64_t)(g() % 3) - 1);
      int64_t q = h_ngetid(w, o);
      for (auto *x : s) { bool h = h_ngetid(w, x) == q; hit.push_back(h); exp += h; }
      n = mode == 2 ? h_nreplace_old(c, w, o, nw) : h_nreplace_id(c, w, q, nw);
    } else {
      void *o = s.empty() || mode == 0 ? h_nty(g() % 2) : s[g() % s.size()];
      nw = h_nty(g() % 3);
      for (auto *x : s) { bool h = h_nsametyname(x, o); hit.push_back(h); exp += h; }
      n = mode == 2 ? h_nreplace_old(c, w, o, nw) : h_nreplace_ty(c, o, nw);
    }
    auto s2 = slots(c, w);
    if (n != exp) { bad(c, w, "number of substitutions", t); return; }
    for (size_t i = 0; i < s.size(); i++) if (s2[i] != (hit[i] ? nw : s[i])) { bad(c, w, hit[i] ? "a position was not replaced" : "a position was replaced that did not hold the operand", t); return; }
    if (slots(c, (w + 1) % 3) != other0 || slots(c, (w + 2) % 3) != other1) { bad(c, w, "operands of another kind changed", t); return; }
  }
}
static void check_alias(int64_t ci, int64_t di) {
  Case *c = h_ncase(ci), *d = h_ncase(di);
  if (ci == di || h_nkind(c) != h_nkind(d) || h_nkind(c) == 2) return;
  h_nalias(c, d);
  if (h_nkind(c) == 0 && h_ntype(c) != h_ntype(d)) bad(c, -1, "type of a replaced node", (int)di);
  for (int w = 0; w < 3; w++) {
    auto s = slots(d, w), sr = s; std::sort(sr.begin(), sr.end());
    if (used(c, w, 0) != sr || (w < 2 && used(c, w, 1) != sr)) { bad(c, w, "a replaced node does not report the operands of its replacement", (int)di); return; }
    if (!s.empty()) {
      void *nw = w < 2 ? h_nnew(w) : h_nty(2); int exp = 0; std::vector<bool> hit;
      for (auto *x : s) { bool h = w < 2 ? h_ngetid(w, x) == h_ngetid(w, s[0]) : h_nsametyname(x, s[0]); hit.push_back(h); exp += h; }
      if (h_nreplace_old(c, w, s[0], nw) != exp) { bad(c, w, "replacing through a replaced node: number of substitutions", (int)di); return; }
      auto s2 = slots(d, w); for (size_t i = 0; i < s.size(); i++) if (s2[i] != (hit[i] ? nw : s[i])) { bad(c, w, "replacing through a replaced node does not act on its replacement", (int)di); return; }
    }
  }
}
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int trials = atoi(argv[2]); out = fopen(argv[3], "w");
  h_nmax(12); h_nmodule(); h_ncases(); int64_t n = h_ncount(); long total = 0;
  auto contained = [&](const char *nm, auto f) {
    fflush(out); pid_t p = fork();
    if (p == 0) { alarm(60); f(); fflush(out); _exit(0); }
    int st; waitpid(p, &st, 0); if (st) { fprintf(out, "F %s|node|died with %s %d|0\n", nm, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fflush(out); }
  };
  for (int64_t i = 0; i < n; i++) { contained(h_nname(h_ncase(i)), [&] { std::mt19937_64 g(seed * 1000003 + i); check_case(i, g, trials); }); total += trials * 3; }
  for (int64_t i = 0; i < n; i++) { contained(h_nname(h_ncase(i)), [&] { std::mt19937_64 g(seed * 7 + i); for (int k = 0; k < 1; k++) check_alias(i, g() % n); }); total++; }
  // replacements of every kind of value / variable by the richest nodes
  for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++) {
    std::string nm = h_nname(h_ncase(j)); if (nm != "ImperativeForFlow4" && nm != "TryCatchFlow3/3" && nm != "BodiedFunc3" && nm != "LLVMFunc3" && nm != "AwaitInstr") continue;
    contained(h_nname(h_ncase(i)), [&] { check_alias(i, j); }); total++; }
  fprintf(out, "N %ld\n", total); fclose(out); return 0;
}
