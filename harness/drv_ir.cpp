// Native driver: builds IR expressions from text, runs a complete pass over the module, prints the resulting expression.
// Crashes are contained by running the cases in a forked worker and reporting the case that died.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "codon/cir/cir.h"
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/global_vars.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/transform/cleanup/canonical.h"
#include "codon/cir/transform/folding/const_fold.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/util/irtools.h"
using namespace codon::ir;
extern "C" {
void *h_module(); void *h_type(Module *, int); void *h_method(Module *, types::Type *, const char *, types::Type *, types::Type *, types::Type *, int);
void *h_opaque(Module *, types::Type *, const char *);
}
static Module *M;
static std::vector<Func *> meths; static std::map<Func *, int> mkey;
static std::map<std::pair<int, int>, Var *> vars; static std::map<int64_t, std::pair<int, int>> vkey;
static std::map<std::pair<int, int>, Func *> opqs; static std::map<Func *, std::pair<int, int>> okey;
static const char *VN[] = {"x", "y", "z", "w", "a", "b", "c", "d"};
static Value *build(std::istringstream &in) {
  char k; in >> k;
  if (k == 'I') { long v; in >> v; return M->getInt(v); }
  if (k == 'F') { unsigned long v; in >> v; double d; memcpy(&d, &v, 8); return M->getFloat(d); }
  if (k == 'B') { int v; in >> v; return M->getBool(v); }
  if (k == 'S') { std::string v; in >> v; return M->getString(v); }
  if (k == 'V') { int t, i; in >> t >> i; auto &p = vars[{t, i}];
    if (!p) { p = M->Nr<Var>((types::Type *)h_type(M, t), true, false, false, "v"); vkey[p->getId()] = {t, i}; }
    return M->Nr<VarValue>(p); }
  if (k == 'O') { int t, i; in >> t >> i; auto &p = opqs[{t, i}];
    if (!p) { p = (Func *)h_opaque(M, (types::Type *)h_type(M, t), ("opq" + std::to_string(t) + "_" + std::to_string(i)).c_str()); okey[p] = {t, i}; }
    return M->Nr<CallInstr>(M->Nr<VarValue>(p)); }
  if (k == 'P') { int j, n; in >> j >> n; std::vector<Value *> a; for (int q = 0; q < n; q++) a.push_back(build(in)); return M->Nr<CallInstr>(M->Nr<VarValue>(meths[j]), a); }
  fprintf(stderr, "bad token %c\n", k); _exit(9);
}
static std::string show(Value *v) {
  v = v->getActual(); char b[128];
  if (auto *c = cast<IntConst>(v)) { snprintf(b, 128, "I %ld", (long)c->getVal()); return b; }
  if (auto *c = cast<FloatConst>(v)) { double d = c->getVal(); unsigned long u; memcpy(&u, &d, 8); snprintf(b, 128, "F %lu", u); return b; }
  if (auto *c = cast<BoolConst>(v)) return c->getVal() ? "B 1" : "B 0";
  if (auto *c = cast<StringConst>(v)) return "S " + c->getVal();
  if (auto *c = cast<VarValue>(v)) { auto it = vkey.find(c->getVar()->getId()); if (it == vkey.end()) return "X var"; snprintf(b, 128, "V %d %d", it->second.first, it->second.second); return b; }
  if (auto *c = cast<CallInstr>(v)) {
    auto *f = util::getFunc(c->getCallee());
    if (okey.count(f)) { snprintf(b, 128, "O %d %d", okey[f].first, okey[f].second); return c->numArgs() ? "X args" : b; }
    if (!mkey.count(f)) return "X call";
    snprintf(b, 128, "P %d %d", mkey[f], (int)c->numArgs()); std::string s = b;
    for (auto *a : *c) s += " " + show(a);
    return s;
  }
  return "X value";
}
static std::string run(const std::string &line) {
  std::istringstream in(line); int pass; in >> pass;
  auto *e = build(in);
  auto *body = M->Nr<SeriesFlow>(); body->push_back(e);
  cast<BodiedFunc>(M->getMainFunc())->setBody(body);
  if (pass < 2) { transform::folding::FoldingPass p(pass == 1); p.run(M); }
  else {
    transform::PassManager pm(transform::PassManager::Init::EMPTY);
    auto cfg = pm.registerAnalysis(std::make_unique<analyze::dataflow::CFAnalysis>());
    auto rd = pm.registerAnalysis(std::make_unique<analyze::dataflow::RDAnalysis>(cfg), {cfg});
    auto dom = pm.registerAnalysis(std::make_unique<analyze::dataflow::DominatorAnalysis>(cfg), {cfg});
    auto cap = pm.registerAnalysis(std::make_unique<analyze::dataflow::CaptureAnalysis>(rd, dom), {rd, dom});
    auto se = pm.registerAnalysis(std::make_unique<analyze::module::SideEffectAnalysis>(cap, true), {cap});
    pm.registerPass(std::make_unique<transform::cleanup::CanonicalizationPass>(se), "", {se}, {});
    pm.run(M);
  }
  if (std::distance(body->begin(), body->end()) != 1) return "X body";
  return show(body->front());
}
int main(int argc, char **argv) {
  std::vector<std::string> cases; std::string l; std::ifstream in(argv[1]); FILE *out = fopen(argv[2], "w");
  M = (Module *)h_module();
  while (std::getline(in, l)) {
    if (l[0] != 'M') { cases.push_back(l); continue; }
    std::istringstream s(l.substr(1)); int p, r, a, b, at; std::string n; s >> p >> n >> r >> a >> b >> at;
    auto *f = (Func *)h_method(M, p < 0 ? nullptr : (types::Type *)h_type(M, p), n.c_str(), (types::Type *)h_type(M, r), (types::Type *)h_type(M, a), b < 0 ? nullptr : (types::Type *)h_type(M, b), at);
    mkey[f] = meths.size(); meths.push_back(f);
  }
  for (size_t i = 0; i < cases.size();) {
    fflush(out); int pp[2]; if (pipe(pp)) return 3;
    pid_t pid = fork();
    if (!pid) {
      FILE *w = fdopen(pp[1], "w"); close(pp[0]);
      for (size_t j = i, k = 0; j < cases.size() && k < 1500; j++, k++) {
        alarm(20);
        std::string r; try { r = run(cases[j]); } catch (const std::exception &e) { r = std::string("T ") + e.what(); for (auto &c : r) if (c == '\n') c = ' '; }
        fputs((r + "\n").c_str(), w); fflush(w);
      }
      _exit(0);
    }
    close(pp[1]); FILE *rf = fdopen(pp[0], "r"); char *buf = nullptr; size_t n = 0; size_t got = 0;
    while (getline(&buf, &n, rf) > 0) { fputs(buf, out); got++; }
    fclose(rf); int st; waitpid(pid, &st, 0); i += got;
    if (WIFSIGNALED(st)) { fprintf(out, "C signal %d\n", WTERMSIG(st)); i++; }
    else if (!got) { fprintf(out, "C exit %d\n", WEXITSTATUS(st)); i++; }
  }
  fclose(out); return 0;
}
