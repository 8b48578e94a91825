// Native differential driver: random whole IR programs (functions, globals, objects, loops, exceptions) are executed by a small
// interpreter of the intermediate representation before and after real passes; the sequence of observable events must be the same.
// usage: drv <passes> <first seed> <count> <out>   |   drv <passes> <seed> dump
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "codon/cir/cir.h"
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/global_vars.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/transform/cleanup/canonical.h"
#include "codon/cir/transform/cleanup/dead_code.h"
#include "codon/cir/transform/cleanup/global_demote.h"
#include "codon/cir/transform/folding/const_fold.h"
#include "codon/cir/transform/folding/const_prop.h"
#include "codon/cir/transform/folding/folding.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/util/cloning.h"
#include "codon/cir/util/format.h"
#include "codon/cir/util/inlining.h"
#include "codon/cir/util/irtools.h"
#include "codon/cir/util/matching.h"
#include "codon/cir/util/outlining.h"
using namespace codon::ir;
using std::string; using std::vector;
extern "C" {
void *h_module(); void *h_type(Module *, int);
void *h_method(Module *, types::Type *, const char *, types::Type *, types::Type *, types::Type *, int);
}
// ------------------------------------------------------------------------------------------------ interpreter
struct Obj { int64_t x = 0; Obj *o = nullptr; };
struct Val { int64_t i = 0; Obj *o = nullptr; Val *p = nullptr; };
struct Thrown { Obj *o; };
struct Facts; // what the analyses claim about the program, checked while it runs
struct Stop { const char *why; };
enum St { NORMAL, BRK, CONT, RET };
struct Interp {
  vector<string> trace; long steps = 0, limit = 30000; int depth = 0; std::map<codon::ir::id_t, Val> globals; vector<Obj *> heap; int inputs = 0; bool bug = false;
  struct Def { const Value *at = nullptr; int kind = 0; }; // what a variable was last assigned by: kind 0 parameter, 1 assignment, 2 first value of a counted loop, 3 later value, 4 handler, 5 write through a pointer
  struct Frame { std::map<codon::ir::id_t, Val> vars; Val ret; vector<Value *> loops; Value *target = nullptr; BodiedFunc *f = nullptr; std::map<codon::ir::id_t, Def> last; const Value *pos = nullptr; bool raised = false; std::set<codon::ir::id_t> blocks; };
  Facts *facts = nullptr; std::map<codon::ir::id_t, Def> glast;
  void def(Var *v, const Value *at, int kind) { (v->isGlobal() ? glast : fr.back().last)[v->getId()] = Def{at, kind}; }
  void done(Value *v); void read(Value *v, Var *var); void at(Value *v) { fr.back().pos = v; }
  vector<Frame> fr;
  ~Interp() { for (auto *o : heap) delete o; }
  Obj *make(bool box) { auto *o = new Obj(); heap.push_back(o); if (box) o->o = make(false); return o; }
  void ev(const string &s) { trace.push_back(s); }
  Val &slot(Var *v) { return v->isGlobal() ? globals[v->getId()] : fr.back().vars[v->getId()]; }
  bool unset = false; // some local was read before it was assigned: not a program the front end can produce
  void tick() { if (++steps > limit) throw Stop{"limit"}; }
  Val call(Func *f, const vector<Val> &a) {
    tick();
    auto n = f->getUnmangledName();
    if (auto *b = cast<BodiedFunc>(f)) {
      if (++depth > 60) throw Stop{"depth"};
      fr.emplace_back(); fr.back().f = b; size_t i = 0;
      for (auto it = b->arg_begin(); it != b->arg_end(); ++it) fr.back().vars[(*it)->getId()] = i < a.size() ? a[i] : Val(), i++;
      size_t sz = fr.size();
      for (auto it = b->arg_begin(); it != b->arg_end(); ++it) def(*it, nullptr, 0);
      try { exec(b->getBody()); } catch (...) { fr.resize(sz - 1); depth--; throw; }
      Val r = fr.back().ret; fr.pop_back(); depth--; return r;
    }
    Val r;
    auto W = [](uint64_t x) { return (int64_t)x; };
    if (n == "__add__") r.i = W((uint64_t)a[0].i + (uint64_t)a[1].i);
    else if (n == "__sub__") r.i = W((uint64_t)a[0].i - (uint64_t)a[1].i);
    else if (n == "__mul__") r.i = W((uint64_t)a[0].i * (uint64_t)a[1].i);
    else if (n == "__lt__") r.i = a[0].i < a[1].i;
    else if (n == "__le__") r.i = a[0].i <= a[1].i;
    else if (n == "__gt__") r.i = a[0].i > a[1].i;
    else if (n == "__ge__") r.i = a[0].i >= a[1].i;
    else if (n == "__eq__") r.i = a[0].i == a[1].i;
    else if (n == "__ne__") r.i = a[0].i != a[1].i;
    else if (n == "__bool__") r.i = a[0].i != 0;
    else if (n == "print") ev("print " + std::to_string(a[0].i));
    else if (n == "input") { r.i = (inputs * 37 + 11) % 7 - 2; inputs++; ev("input"); }
    else if (n == "purefn") r.i = W((uint64_t)a[0].i * 2654435761u) >> 3;
    else if (n == "mayraise") { if (a[0].i & 1) { auto *o = make(false); o->x = a[0].i; throw Thrown{o}; } }
    else if (n == "mutate") { a[0].o->x += 3; }
    else if (n == "poke") { if (!a[0].p) throw Stop{"null pointer"}; a[0].p->i = a[1].i; }
    else if (n == "newobj") r.o = make(false);
    else if (n == "newbox") r.o = make(true);
    else { ev("unknown function " + n); throw Stop{"bad"}; }
    return r;
  }
  Val eval(Value *v) {
    tick();
    if (!v) throw Stop{"null value"};
    v = v->getActual();
    Val r = eval1(v); if (facts && !isA<Flow>(v) && !isA<AssignInstr>(v) && !isA<InsertInstr>(v) && !isA<ThrowInstr>(v)) done(v); return r;
  }
  Val callAt(CallInstr *c, Func *f, const vector<Val> &a);
  Val eval1(Value *v) {
    Val r;
    if (auto *c = cast<IntConst>(v)) { r.i = c->getVal(); return r; }
    if (auto *c = cast<BoolConst>(v)) { r.i = c->getVal(); return r; }
    if (auto *c = cast<VarValue>(v)) { auto *var = c->getVar(); if (isA<Func>(var)) return r; if (facts) read(v, var); if (!var->isGlobal() && !fr.back().vars.count(var->getId())) unset = true; return slot(var); }
    if (auto *c = cast<CallInstr>(v)) {
      auto *f = util::getFunc(c->getCallee()); if (!f) throw Stop{"callee"};
      if (facts) done(c->getCallee());
      vector<Val> a; for (auto *x : *c) a.push_back(eval(x));
      return facts ? callAt(c, f, a) : call(f, a);
    }
    if (auto *c = cast<PointerValue>(v)) { r.p = &slot(c->getVar()); return r; }
    if (auto *c = cast<TernaryInstr>(v)) return eval(c->getCond()).i ? eval(c->getTrueValue()) : eval(c->getFalseValue());
    if (auto *c = cast<ExtractInstr>(v)) { auto o = eval(c->getVal()).o; if (!o) throw Stop{"null object"}; if (c->getField() == "x") r.i = o->x; else r.o = o->o; return r; }
    if (auto *c = cast<FlowInstr>(v)) { if (exec(c->getFlow()) != NORMAL) throw Stop{"flow in expression"}; return eval(c->getValue()); }
    if (isA<Flow>(v) || isA<Instr>(v)) { if (exec(v) != NORMAL) throw Stop{"control in expression"}; return r; }
    throw Stop{"unknown value"};
  }
  // -> true: leave the loop with s
  bool loop(Value *self, St &s) {
    if (s == NORMAL) return false;
    if (s == RET) return true;
    auto *t = fr.back().target;
    if (t && t->getId() != self->getId()) return true;
    bool b = s == BRK; s = NORMAL; fr.back().target = nullptr; return b;
  }
  St exec(Value *v) {
    tick();
    if (!v) return NORMAL;
    v = v->getActual();
    if (auto *c = cast<SeriesFlow>(v)) { for (auto *x : *c) { auto s = exec(x); if (s != NORMAL) return s; } return NORMAL; }
    if (auto *c = cast<IfFlow>(v)) { if (eval(c->getCond()).i) return exec(c->getTrueBranch()); return c->getFalseBranch() ? exec(c->getFalseBranch()) : NORMAL; }
    if (auto *c = cast<WhileFlow>(v)) {
      while (eval(c->getCond()).i) { auto s = exec(c->getBody()); if (loop(v, s)) return s; }
      return NORMAL;
    }
    if (auto *c = cast<ImperativeForFlow>(v)) {
      int64_t i = eval(c->getStart()).i, e = eval(c->getEnd()).i, st = c->getStep();
      bool first = true;
      while (st > 0 ? i < e : i > e) {
        tick(); slot(c->getVar()).i = i; if (facts) def(c->getVar(), v, first ? 2 : 3); first = false;
        auto s = exec(c->getBody()); if (loop(v, s)) return s;
        i = (int64_t)((uint64_t)i + (uint64_t)st);
      }
      return NORMAL;
    }
    if (auto *c = cast<TryCatchFlow>(v)) {
      St s = NORMAL; bool pend = false; Thrown th{nullptr}; size_t n = fr.size(); int d = depth;
      try {
        try { s = exec(c->getBody()); if (s == NORMAL && c->getElse()) s = exec(c->getElse()); }
        catch (Thrown &t) {
          fr.resize(n); depth = d; fr.back().raised = true; bool hit = false;
          for (auto &h : *c) {
            if (h.getType() && h.getType()->getName() != "Obj") continue;
            if (h.getVar()) { slot(h.getVar()).o = t.o; if (facts) def(h.getVar(), v, 4); }
            hit = true; s = exec(h.getHandler()); break;
          }
          if (!hit) throw;
        }
      } catch (Thrown &t) { fr.resize(n); depth = d; fr.back().raised = true; pend = true; th = t; }
      if (c->getFinally()) { auto *tg = fr.back().target; auto s2 = exec(c->getFinally()); if (s2 != NORMAL) return s2; fr.back().target = tg; }
      if (pend) throw th;
      return s;
    }
    if (auto *c = cast<AssignInstr>(v)) { auto x = eval(c->getRhs()); slot(c->getLhs()) = x; if (facts) { def(c->getLhs(), v, 1); done(v); } return NORMAL; }
    if (auto *c = cast<InsertInstr>(v)) {
      auto o = eval(c->getLhs()).o; auto x = eval(c->getRhs()); if (!o) throw Stop{"null object"};
      if (c->getField() == "x") o->x = x.i; else o->o = x.o;
      if (facts) done(v);
      return NORMAL;
    }
    if (auto *c = cast<ReturnInstr>(v)) { if (c->getValue()) { auto x = eval(c->getValue()); fr.back().ret = x; } return RET; }
    if (auto *c = cast<BreakInstr>(v)) { fr.back().target = c->getLoop(); return BRK; }
    if (auto *c = cast<ContinueInstr>(v)) { fr.back().target = c->getLoop(); return CONT; }
    if (auto *c = cast<ThrowInstr>(v)) { auto o = eval(c->getValue()).o; if (facts) at(v); throw Thrown{o}; }
    eval(v); return NORMAL;
  }
  string run(Module *M) {
    string end = "end";
    try { call(cast<Func>(M->getMainFunc()), {}); }
    catch (Thrown &t) { end = "uncaught " + std::to_string(t.o ? t.o->x : -1); }
    catch (Stop &s) { end = string("stop ") + s.why; }
    string r; for (auto &t : trace) r += t + ";"; return r + end;
  }
};
// ------------------------------------------------------------------------------------------------ generator
struct Gen {
  std::mt19937_64 rng; Module *M; bool useEarlyGlobals = true, wild = true, facts = false; // facts: also take addresses of variables, reuse variables as loop counters, put statements into conditions
  types::Type *I, *B, *V, *OT, *XT;
  struct FD { BodiedFunc *f; types::Type *ret; vector<types::Type *> args; };
  vector<FD> funcs; std::map<string, Func *> ext, ops;
  vector<Var *> gi, go, gx; // globals
  vector<Var *> li, lo, lx; // locals (and arguments) of the function being built
  BodiedFunc *cur = nullptr; types::Type *curRet = nullptr; size_t avail = 0; int loopDepth = 0; vector<Var *> counters; bool inMain = false; vector<Value *> loopStack;
  int R(int n) { return (int)(rng() % (uint64_t)n); }
  bool P(int pct) { return R(100) < pct; }
  Func *external(const char *n, types::Type *ret, vector<types::Type *> args, const string &attr = "") {
    auto *f = M->Nr<ExternalFunc>(n); vector<string> names; for (size_t i = 0; i < args.size(); i++) names.push_back("a" + std::to_string(i));
    f->realize(M->unsafeGetFuncType(string("ext.") + n, ret, args), names); f->setUnmangledName(n);
    if (!attr.empty()) f->setAttribute(std::make_unique<KeyValueAttribute>(std::unordered_map<string, string>{{attr, ""}}));
    return ext[n] = f;
  }
  Value *vv(Var *v) { return M->Nr<VarValue>(v); }
  Value *callf(Func *f, vector<Value *> a) { return M->Nr<CallInstr>(vv(f), a); }
  template <typename T> T pick(const vector<T> &v) { return v[R((int)v.size())]; }
  Value *iexpr(int d) {
    int k = R(d <= 0 ? 4 : 14);
    auto ints = li; if (!gi.empty()) ints.insert(ints.end(), gi.begin(), gi.end());
    if (k < 2 && !ints.empty()) return vv(pick(ints));
    if (k < 4 || ints.empty()) return M->getInt(R(9) - 3);
    switch (k) {
    case 4: case 5: return callf(ops["__add__"], {iexpr(d - 1), iexpr(d - 1)});
    case 6: return callf(ops["__sub__"], {iexpr(d - 1), iexpr(d - 1)});
    case 7: return callf(ops["__mul__"], {iexpr(d - 1), iexpr(d - 1)});
    case 8: return M->Nr<TernaryInstr>(bexpr(d - 1), iexpr(d - 1), iexpr(d - 1));
    case 9: return M->Nr<ExtractInstr>(oexpr(d - 1), "x");
    case 10: { auto *s = M->Nr<SeriesFlow>(); int n = R(3); for (int i = 0; i < n; i++) s->push_back(simple(d - 1)); return M->Nr<FlowInstr>(s, iexpr(d - 1)); }
    case 11: if (auto *c = anycall(I, d)) return c; return vv(pick(ints));
    case 12: return P(50) ? callf(ext["purefn"], {iexpr(d - 1)}) : callf(ext["input"], {});
    default: return vv(pick(ints));
    }
  }
  Value *bexpr(int d) {
    if (facts && d > 0 && P(12)) { auto *s = M->Nr<SeriesFlow>(); int n = 1 + R(3); for (int i = 0; i < n; i++) s->push_back(P(40) ? M->Nr<TernaryInstr>(bexpr(0), iexpr(1), iexpr(0)) : simple(d - 1)); return M->Nr<FlowInstr>(s, bexpr(d - 1)); }
    if (P(20)) return M->getBool(P(50));
    static const char *cmp[] = {"__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"};
    return callf(ops[cmp[R(6)]], {iexpr(d - 1), iexpr(d - 1)});
  }
  Value *oexpr(int d) {
    int k = R(d <= 0 ? 3 : 9);
    auto os = lo; os.insert(os.end(), go.begin(), go.end());
    if (os.empty()) return callf(ext["newobj"], {});
    if (k < 3 || d <= 0) return vv(pick(os));
    if (k == 3) return callf(ext["newobj"], {});
    if (k == 4 || k == 5) return M->Nr<ExtractInstr>(xexpr(d - 1), "o");
    if (k == 6) return M->Nr<TernaryInstr>(bexpr(d - 1), oexpr(d - 1), oexpr(d - 1));
    if (k == 7) if (auto *c = anycall(OT, d)) return c;
    return vv(pick(os));
  }
  Value *xexpr(int d) {
    auto xs = lx; xs.insert(xs.end(), gx.begin(), gx.end());
    if (xs.empty()) return callf(ext["newbox"], {});
    if (d > 0 && P(20)) if (auto *c = anycall(XT, d)) return c;
    return vv(pick(xs));
  }
  Value *anycall(types::Type *ret, int d) {
    vector<size_t> c; for (size_t i = 0; i < avail; i++) if (funcs[i].ret == ret) c.push_back(i);
    if (c.empty()) return nullptr;
    auto &f = funcs[pick(c)]; vector<Value *> a;
    for (auto *t : f.args) a.push_back(t == I ? iexpr(d - 1) : t == OT ? oexpr(d - 1) : xexpr(d - 1));
    return callf(f.f, a);
  }
  Value *assign(int d) {
    int k = R(10);
    auto ints = li; if (!gi.empty() && P(40)) ints = gi;
    // loop counters are never assigned by other statements
    vector<Var *> ok; for (auto *v : ints) if (std::find(counters.begin(), counters.end(), v) == counters.end()) ok.push_back(v);
    if (k < 6 && !ok.empty()) return M->Nr<AssignInstr>(pick(ok), P(35) ? M->getInt(R(9) - 3) : iexpr(d));
    auto os = lo; if (!go.empty() && P(30)) os = go;
    if (k < 8 && !os.empty()) return M->Nr<AssignInstr>(pick(os), oexpr(d));
    auto xs = lx; if (!gx.empty() && P(30)) xs = gx;
    if (!xs.empty()) return M->Nr<AssignInstr>(pick(xs), xexpr(d));
    return callf(ext["print"], {iexpr(d)});
  }
  Value *simple(int d) {
    if (facts && P(4)) { auto ints = li; if (!gi.empty()) ints.insert(ints.end(), gi.begin(), gi.end()); vector<Var *> ok; for (auto *v : ints) if (std::find(counters.begin(), counters.end(), v) == counters.end()) ok.push_back(v);
      if (!ok.empty()) return callf(ext["poke"], {M->Nr<PointerValue>(pick(ok)), iexpr(d)}); }
    switch (R(8)) {
    case 0: return callf(ext["print"], {iexpr(d)});
    case 1: return M->Nr<InsertInstr>(oexpr(d), "x", iexpr(d));
    case 2: return M->Nr<InsertInstr>(xexpr(d), "o", oexpr(d));
    case 3: { auto *t = std::array<types::Type *, 4>{I, OT, XT, V}[R(4)]; if (auto *c = anycall(t, d)) return c; return assign(d); }
    case 4: return P(50) ? callf(ext["mutate"], {oexpr(d)}) : P(50) ? iexpr(d) : oexpr(d);
    default: return assign(d);
    }
  }
  SeriesFlow *series(int n, int d) { auto *s = M->Nr<SeriesFlow>(); for (int i = 0; i < n; i++) stmt(s, d); return s; }
  Var *newInt(const char *n) { auto *v = M->Nr<Var>(I, false, false, false, n); cur->push_back(v); auto *top = cast<SeriesFlow>(cur->getBody()); top->insert(top->begin(), M->Nr<AssignInstr>(v, M->getInt(0))); return v; }
  void stmt(SeriesFlow *s, int d) {
    int k = d <= 0 ? R(9) : R(20);
    if (k < 9) { s->push_back(simple(2)); return; }
    if (k < 12) { s->push_back(M->Nr<IfFlow>(bexpr(2), series(1 + R(3), d - 1), P(50) ? series(1 + R(3), d - 1) : nullptr)); return; }
    if (k < 14) { // counted while
      auto *c = newInt("c"); s->push_back(M->Nr<AssignInstr>(c, M->getInt(0)));
      if (P(8)) { auto *w0 = M->Nr<WhileFlow>(M->getBool(false), series(1 + R(2), d - 1)); s->push_back(w0); return; }
      auto *b = M->Nr<SeriesFlow>(); b->push_back(M->Nr<AssignInstr>(c, callf(ops["__add__"], {vv(c), M->getInt(1)})));
      auto *w = M->Nr<WhileFlow>(callf(ops["__lt__"], {vv(c), M->getInt(R(4))}), b);
      li.push_back(c); counters.push_back(c); loopStack.push_back(w); int n = 1 + R(3); for (int i = 0; i < n; i++) stmt(b, d - 1); loopStack.pop_back();
      s->push_back(w); return;
    }
    if (k < 16) {
      vector<Var *> ok; if (facts) { for (auto *v : li) if (std::find(counters.begin(), counters.end(), v) == counters.end()) ok.push_back(v); for (auto *v : gi) ok.push_back(v); }
      bool reuse = !ok.empty() && P(40);
      auto *v = reuse ? pick(ok) : newInt("i"); auto *b = M->Nr<SeriesFlow>(); int64_t st = P(50) ? 1 : R(7) - 3; if (!st) st = 1;
      Value *lo_ = P(60) ? M->getInt(R(6) - 2) : vv(li.empty() ? v : pick(li)), *hi = P(60) ? M->getInt(R(6) - 2) : iexpr(1);
      if (!reuse && isA<VarValue>(lo_) && cast<VarValue>(lo_)->getVar() == v) lo_ = M->getInt(0);
      auto *w = M->Nr<ImperativeForFlow>(lo_, st, hi, b, v);
      auto sv = li; if (!reuse) li.push_back(v); counters.push_back(v); loopStack.push_back(w); int n = 1 + R(3); for (int i = 0; i < n; i++) stmt(b, d - 1); loopStack.pop_back(); li = sv; if (reuse) counters.pop_back();
      s->push_back(w); return;
    }
    if (k < 18) {
      auto *b = series(1 + R(3), d - 1);
      if (P(50)) b->insert(b->begin(), callf(ext["mayraise"], {iexpr(1)}));
      if (P(30)) b->push_back(M->Nr<IfFlow>(bexpr(1), one(M->Nr<ThrowInstr>(oexpr(1)))));
      bool fin = P(35);
      SeriesFlow *h = nullptr; Var *cv = nullptr; auto so = lo;
      if (!fin || P(70)) {
        if (P(60)) { cv = M->Nr<Var>(OT, false, false, false, "e"); cur->push_back(cv); lo.push_back(cv); }
        h = series(1 + R(2), d - 1); lo = so;
      }
      auto sl = loopStack; if (fin) loopStack.clear();
      auto *t = M->Nr<TryCatchFlow>(b, fin ? series(1 + R(2), d - 1) : nullptr, P(20) ? series(1, d - 1) : nullptr);
      loopStack = sl;
      if (h) t->push_back(TryCatchFlow::Catch(h, cv || P(50) ? OT : nullptr, cv));
      s->push_back(t); return;
    }
    if (!loopStack.empty() && P(60)) {
      Value *tgt = P(70) ? nullptr : loopStack[R((int)loopStack.size())];
      Value *j = P(50) ? (Value *)M->Nr<BreakInstr>(tgt) : (Value *)M->Nr<ContinueInstr>(tgt);
      s->push_back(M->Nr<IfFlow>(bexpr(1), one(j))); return;
    }
    if (!inMain && P(50)) { s->push_back(M->Nr<IfFlow>(bexpr(1), one(retInstr()))); return; }
    if (P(30)) { s->push_back(series(1 + R(2), d - 1)); return; }
    s->push_back(callf(ext["print"], {iexpr(2)}));
  }
  SeriesFlow *one(Value *v) { auto *s = M->Nr<SeriesFlow>(); s->push_back(v); return s; }
  Value *retInstr() { return M->Nr<ReturnInstr>(curRet == I ? iexpr(2) : curRet == OT ? oexpr(2) : curRet == XT ? xexpr(2) : nullptr); }
  void body(BodiedFunc *f, types::Type *ret, bool isMain) {
    cur = f; curRet = ret; inMain = isMain; li.clear(); lo.clear(); lx.clear(); counters.clear(); loopStack.clear();
    auto *s = M->Nr<SeriesFlow>(); f->setBody(s);
    for (auto it = f->arg_begin(); it != f->arg_end(); ++it) { auto *t = (*it)->getType(); (t == I ? li : t == OT ? lo : lx).push_back(*it); }
    if (isMain) {
      for (auto *v : gi) if (!useEarlyGlobals || P(85)) s->push_back(M->Nr<AssignInstr>(v, M->getInt(R(9) - 3)));
      for (auto *v : go) s->push_back(M->Nr<AssignInstr>(v, callf(ext["newobj"], {})));
      for (auto *v : gx) s->push_back(M->Nr<AssignInstr>(v, callf(ext["newbox"], {})));
    }
    auto mk = [&](types::Type *t, const char *n, vector<Var *> &l, Value *init) { auto *v = M->Nr<Var>(t, false, false, false, n); f->push_back(v); s->push_back(M->Nr<AssignInstr>(v, init)); l.push_back(v); };
    static const char *nm[] = {"a", "b", "c", "d"};
    int n = 1 + R(3); for (int i = 0; i < n; i++) mk(I, nm[i], li, M->getInt(R(9) - 3));
    n = R(3); for (int i = 0; i < n; i++) mk(OT, i ? "p" : "o", lo, P(60) ? callf(ext["newobj"], {}) : oexpr(1));
    n = R(2); for (int i = 0; i < n; i++) mk(XT, "x", lx, P(60) ? callf(ext["newbox"], {}) : xexpr(1));
    if (!isMain && P(45)) { // small helper that only touches objects and variables
      n = 1 + R(2);
      for (int i = 0; i < n; i++) s->push_back(P(60) ? (Value *)M->Nr<InsertInstr>(oexpr(2), "x", iexpr(1)) : P(40) ? (Value *)M->Nr<InsertInstr>(xexpr(2), "o", oexpr(2)) : assign(1));
      if (P(20)) s->push_back(M->Nr<IfFlow>(bexpr(1), one(assign(1))));
    } else { n = 1 + R(isMain ? 8 : 5); for (int i = 0; i < n; i++) stmt(s, 3); }
    if (isMain) for (size_t i = 0; i < avail; i++) if (P(50)) { auto &f = funcs[i]; vector<Value *> a; for (auto *t : f.args) a.push_back(t == I ? iexpr(1) : t == OT ? oexpr(1) : xexpr(1)); s->push_back(callf(f.f, a)); }
    if (isMain) { // make the final state observable
      for (auto *v : gi) if (P(60)) s->push_back(callf(ext["print"], {vv(v)}));
      for (auto *v : go) if (P(60)) s->push_back(callf(ext["print"], {M->Nr<ExtractInstr>(vv(v), "x")}));
      for (auto *v : gx) if (P(60)) s->push_back(callf(ext["print"], {M->Nr<ExtractInstr>(M->Nr<ExtractInstr>(vv(v), "o"), "x")}));
      for (auto *v : li) if (P(30)) s->push_back(callf(ext["print"], {vv(v)}));
      for (auto *v : lo) if (P(60)) s->push_back(callf(ext["print"], {M->Nr<ExtractInstr>(vv(v), "x")}));
      for (auto *v : lx) if (P(60)) s->push_back(callf(ext["print"], {M->Nr<ExtractInstr>(M->Nr<ExtractInstr>(vv(v), "o"), "x")}));
    } else if (ret != V) s->push_back(retInstr());
  }
  void build(uint64_t seed) {
    rng.seed(seed); rng.discard(8);
    M = (Module *)h_module(); I = M->getIntType(); B = M->getBoolType(); V = M->getVoidType();
    OT = M->unsafeGetMemberedType("Obj", true); cast<types::RefType>(OT)->realize({I}, {"x"});
    XT = M->unsafeGetMemberedType("Box", true); cast<types::RefType>(XT)->realize({OT, I}, {"o", "x"});
    for (auto *n : {"__add__", "__sub__", "__mul__"}) ops[n] = (Func *)h_method(M, I, n, I, I, I, n[2] == 's' ? 8 : n[2] == 'm' ? 15 : 11);
    for (auto *n : {"__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"}) ops[n] = (Func *)h_method(M, I, n, B, I, I, 8);
    external("print", V, {I}); external("input", I, {}); external("purefn", I, {I}, util::PURE_ATTR); external("mayraise", V, {I}, util::NO_CAPTURE_ATTR);
    external("mutate", V, {OT}, ""); external("newobj", OT, {}, util::NO_SIDE_EFFECT_ATTR); external("newbox", XT, {}, util::NO_SIDE_EFFECT_ATTR);
    if (facts) external("poke", V, {M->unsafeGetPointerType(I), I});
    auto mk = [&](types::Type *t, const char *n) { auto *v = M->Nr<Var>(t, true, false, false, n); return v; };
    int n = R(4); static const char *gn[] = {"G0", "G1", "G2", "G3"}; for (int i = 0; i < n; i++) gi.push_back(mk(I, gn[i]));
    n = R(3); static const char *hn[] = {"H0", "H1"}; for (int i = 0; i < n; i++) go.push_back(mk(OT, hn[i]));
    n = R(2); for (int i = 0; i < n; i++) gx.push_back(mk(XT, "X0"));
    n = R(5);
    for (int i = 0; i < n; i++) {
      FD d; d.ret = std::array<types::Type *, 5>{I, I, OT, XT, V}[R(5)]; int na = R(4); for (int j = 0; j < na; j++) d.args.push_back(std::array<types::Type *, 4>{I, I, OT, XT}[R(4)]);
      auto nm = "f" + std::to_string(i); d.f = M->Nr<BodiedFunc>(nm); vector<string> an; for (int j = 0; j < na; j++) an.push_back("a" + std::to_string(j));
      d.f->realize(M->unsafeGetFuncType("t." + nm, d.ret, d.args), an); d.f->setUnmangledName(nm); avail = i;
      body(d.f, d.ret, false); funcs.push_back(d);
    }
    avail = funcs.size();
    auto *mainf = cast<BodiedFunc>(M->getMainFunc()); body(mainf, V, true);
  }
};
// ------------------------------------------------------------------------------------------------ facts
// The claims of the analyses, computed once on the module, against what happens when the program runs: every execution is a path of the control-flow
// graph; the definition a read sees is among the reaching ones; dominating blocks were passed; captured and modified parameters are reported.
struct Facts {
  using D = analyze::dataflow::CFBlock;
  transform::PassManager pm{transform::PassManager::Init::EMPTY}; string bad; string kcf, krd, kdom, kcap, kgv;
  struct Grab : public transform::OperatorPass { Facts *f; string getKey() const override { return "verif-grab"; } void run(Module *) override {
    f->cf = getAnalysisResult<analyze::dataflow::CFResult>(f->kcf); f->rd = getAnalysisResult<analyze::dataflow::RDResult>(f->krd); f->dom = getAnalysisResult<analyze::dataflow::DominatorResult>(f->kdom);
    f->cap = getAnalysisResult<analyze::dataflow::CaptureResult>(f->kcap); f->gv = getAnalysisResult<analyze::module::GlobalVarsResult>(f->kgv); } };
  analyze::dataflow::CFResult *cf = nullptr; analyze::dataflow::RDResult *rd = nullptr; analyze::dataflow::DominatorResult *dom = nullptr; analyze::dataflow::CaptureResult *cap = nullptr; analyze::module::GlobalVarsResult *gv = nullptr;
  std::set<codon::ir::id_t> pointed; long checks = 0; bool mute = false, strict = false; // mute: a call returned an object a global refers to, which the capture analysis does not model (known finding)
  Facts(Module *M) {
    using namespace analyze;
    kcf = pm.registerAnalysis(std::make_unique<dataflow::CFAnalysis>()); krd = pm.registerAnalysis(std::make_unique<dataflow::RDAnalysis>(kcf), {kcf}); kdom = pm.registerAnalysis(std::make_unique<dataflow::DominatorAnalysis>(kcf), {kcf});
    kcap = pm.registerAnalysis(std::make_unique<dataflow::CaptureAnalysis>(krd, kdom), {krd, kdom}); kgv = pm.registerAnalysis(std::make_unique<module::GlobalVarsAnalyses>());
    auto g = std::make_unique<Grab>(); g->f = this; pm.registerPass(std::move(g), "", {kcf, krd, kdom, kcap, kgv}, {}); pm.run(M);
    struct Find : public util::Operator { std::set<codon::ir::id_t> *s; void handle(PointerValue *v) override { s->insert(v->getVar()->getId()); } };
    Find d; d.s = &pointed; d.visit(M);
  }
  void fail(const string &s) { if (bad.empty()) bad = s; }
  static string str(const Value *v) { std::ostringstream o; util::format(o, v); auto s = o.str(); for (auto &c : s) if (c == '\n') c = ' '; return s.substr(0, 160) + "#" + std::to_string(v->getId()); }
  static bool real(const Value *v) { return !isA<analyze::dataflow::SyntheticAssignInstr>(v) && !isA<analyze::dataflow::SyntheticPhiInstr>(v) && !isA<BreakInstr>(v) && !isA<ContinueInstr>(v) && !isA<ReturnInstr>(v); }
  static const Value *first(D *b) { for (auto *v : *b) if (real(v)) return v; return nullptr; }
  bool path(D *b, const Value *to, std::set<D *> &seen) {
    for (auto it = b->successors_begin(); it != b->successors_end(); ++it) {
      if (!seen.insert(*it).second) continue;
      auto *f = first(*it); if (f ? f == to : path(*it, to, seen)) return true;
    }
    return false;
  }
  void reach(Obj *o, std::set<Obj *> &s) { while (o && s.insert(o).second) o = o->o; }
};
void Interp::done(Value *v) {
  auto &f = fr.back(); auto gi = facts->cf->graphs.find(f.f->getId()); if (gi == facts->cf->graphs.end()) return;
  auto *g = gi->second.get(); auto *b = g->getBlock(v); if (!b || !Facts::real(v) || isA<TernaryInstr>(v)) return;
  facts->checks++;
  bool in = false; for (auto *x : *b) if (x == v) in = true;
  if (!in) return;
  bool ok = false; std::set<Facts::D *> seen;
  if (!f.pos) { auto *e = Facts::first(g->getEntryBlock()); ok = e ? e == v : facts->path(g->getEntryBlock(), v, seen); }
  else {
    auto *pb = g->getBlock(f.pos); bool past = false; const Value *nx = nullptr; for (auto *x : *pb) { if (past && Facts::real(x)) { nx = x; break; } if (x == f.pos) past = true; }
    ok = f.raised ? facts->path(pb, v, seen) : nx ? nx == v : facts->path(pb, v, seen);
  }
  if (!ok) facts->fail("the control-flow graph of " + f.f->getName() + " has no path to " + Facts::str(v) + (f.pos ? (f.raised ? string(" from the exception raised at ") : string(" from ")) + Facts::str(f.pos) : string(" from the entry")));
  f.pos = v; f.raised = false; f.blocks.insert(b->getId());
  auto di = facts->dom->results.find(f.f->getId()); if (di == facts->dom->results.end()) return;
  for (auto it = g->begin(); it != g->end(); ++it) {
    auto *d = *it; auto *x = d == b ? nullptr : Facts::first(d); if (!x) continue;
    if (di->second->isDominated(v, x) && !f.blocks.count(d->getId())) facts->fail("block of " + Facts::str(x) + " is reported to dominate " + Facts::str(v) + ", which runs without it");
  }
}
void Interp::read(Value *v, Var *var) {
  if (var->isGlobal()) {
    auto it = facts->gv->assignments.find(var->getId()); if (it == facts->gv->assignments.end() || it->second == (codon::ir::id_t)-1) return;
    auto l = glast.find(var->getId()); if (l == glast.end()) return;
    facts->checks++;
    auto *a = l->second.kind == 1 ? cast<AssignInstr>(l->second.at) : nullptr;
    if (!a || a->getRhs()->getId() != it->second) facts->fail("global " + var->getName() + " is reported to be assigned once, but was last assigned by " + (l->second.at ? Facts::str(l->second.at) : "a parameter"));
    return;
  }
  auto &f = fr.back(); auto ri = facts->rd->results.find(f.f->getId()); if (ri == facts->rd->results.end()) return;
  auto l = f.last.find(var->getId()); if (l == f.last.end()) return;
  auto defs = ri->second->getReachingDefinitions(var, v); facts->checks++;
  if (defs.empty()) return;
  if (facts->pointed.count(var->getId())) { facts->fail("definitions reported for " + var->getName() + ", whose address is taken"); return; }
  using S = analyze::dataflow::SyntheticAssignInstr; bool ok = false;
  for (auto &d : defs) {
    auto *s = cast<S>(d.assignment);
    switch (l->second.kind) {
    case 0: ok |= s && s->getKind() == S::KNOWN && isA<VarValue>(d.assignee) && cast<VarValue>(d.assignee)->getVar()->getId() == var->getId(); break;
    case 1: ok |= d.assignment->getId() == l->second.at->getId() && d.assignee && d.assignee->getId() == cast<AssignInstr>(l->second.at)->getRhs()->getId(); break;
    case 2: ok |= s && cast<Value>(s->getSource()) && cast<Value>(s->getSource())->getId() == l->second.at->getId() && (!d.assignee || d.assignee->getId() == cast<ImperativeForFlow>(l->second.at)->getStart()->getId()); break;
    default: ok |= s && cast<Value>(s->getSource()) && cast<Value>(s->getSource())->getId() == l->second.at->getId() && !d.assignee; break;
    }
  }
  if (!ok) facts->fail("the definition of " + var->getName() + " that reaches " + Facts::str(v) + " (" + (l->second.at ? Facts::str(l->second.at) : string("the parameter")) + ") is not among the " + std::to_string(defs.size()) + " reported");
}
Val Interp::callAt(CallInstr *c, Func *f, const vector<Val> &a) {
  auto ci = facts->cap->results.find(f->getId()); auto *b = cast<BodiedFunc>(f);
  if (!b || ci == facts->cap->results.end()) try { return call(f, a); } catch (Thrown &) { at(c); throw; }
  size_t n = a.size(); vector<std::set<Obj *>> before(n); std::set<Obj *> glob; for (auto &g : globals) facts->reach(g.second.o, glob);
  vector<bool> sep(n, false);
  for (size_t i = 0; i < n; i++) facts->reach(a[i].o, before[i]);
  for (size_t i = 0; i < n; i++) if (a[i].o) { sep[i] = true; for (auto *o : before[i]) { if (glob.count(o)) sep[i] = false; for (size_t j = 0; j < n; j++) if (j != i && before[j].count(o)) sep[i] = false; } }
  std::map<Obj *, Obj> snap; for (size_t i = 0; i < n; i++) for (auto *o : before[i]) snap[o] = *o;
  // an object captured by another parameter or externally may also be reached and changed through that
  auto after = [&](Obj *ret, bool thrown) {
    std::set<Obj *> g2, r; for (auto &g : globals) facts->reach(g.second.o, g2); facts->reach(ret, r);
    if (ret && !thrown) { bool g = false, own = false; for (auto *o : r) { g |= g2.count(o) > 0; for (size_t i = 0; i < n; i++) own |= before[i].count(o) > 0; } if (g && !own && !facts->strict) facts->mute = true; }
    for (size_t i = 0; i < n; i++) {
      if (!sep[i] || facts->mute) continue;
      facts->checks++;
      auto &info = ci->second[i]; auto who = "parameter " + std::to_string(i) + " of " + f->getName();
      for (auto *o : before[i]) {
        if (g2.count(o) && !info.externCaptures && info.argCaptures.empty()) facts->fail(who + " is reported not to escape, but a global refers to it after the call");
        if (r.count(o) && thrown && !info.externCaptures && info.argCaptures.empty()) facts->fail(who + " is reported not to escape, but was thrown");
        if (r.count(o) && !thrown && !info.returnCaptures && info.argCaptures.empty()) facts->fail(who + " is reported not to be returned, but the result refers to it");
        if (!info.modified && !info.externCaptures && info.argCaptures.empty() && (snap[o].x != o->x || snap[o].o != o->o)) facts->fail(who + " is reported unmodified, but was modified");
        for (size_t j = 0; j < n; j++) { if (j == i || !a[j].o || !sep[j] || info.externCaptures) continue; std::set<Obj *> rj; facts->reach(a[j].o, rj); bool lk = false; for (auto k : info.argCaptures) lk |= k == j; if (rj.count(o) && !lk) facts->fail(who + " is reported not to be captured by parameter " + std::to_string(j) + ", which refers to it after the call"); }
      }
    }
  };
  Val r; try { r = call(f, a); } catch (Thrown &t) { at(c); after(t.o, true); throw; }
  after(r.o, false); return r;
}
// ------------------------------------------------------------------------------------------------ passes
// h: dead code with global assignments as effects  c: dead code without  g: global demotion  f: constant folding  p: constant propagation
// k: canonicalization  F: the folding group of the release pipeline  G: with demotion  C: clone every function body  I: inline calls  O: outline
struct ClonePass : public transform::OperatorPass {
  string getKey() const override { return "verif-clone"; }
  void run(Module *M) override {
    vector<BodiedFunc *> fs; fs.push_back(cast<BodiedFunc>(M->getMainFunc()));
    for (auto *v : *M) if (auto *f = cast<BodiedFunc>(v)) fs.push_back(f);
    for (auto *f : fs) { util::CloneVisitor cv(M); f->setBody(cast<Flow>(cv.clone(f->getBody()))); }
  }
};
struct CloneFuncPass : public transform::OperatorPass {
  std::map<codon::ir::id_t, Func *> done;
  string getKey() const override { return "verif-clonef"; }
  void handle(CallInstr *v) override {
    auto *f = cast<BodiedFunc>(util::getFunc(v->getCallee())); if (!f) return;
    for (auto &p : done) if (p.second->getId() == f->getId()) return;
    auto &g = done[f->getId()]; if (!g) { util::CloneVisitor cv(v->getModule()); g = cast<Func>(cv.forceClone(f)); }
    v->setCallee(v->getModule()->Nr<VarValue>(g));
  }
};
namespace codon::ir { types::Type *Module::getNoneType() { auto *n = unsafeGetMemberedType("NoneType.verif"); return n; } }
struct InlinePass : public transform::OperatorPass {
  int n = 0, seed; InlinePass(int s) : seed(s) {}
  string getKey() const override { return "verif-inline"; }
  void handle(CallInstr *v) override {
    auto *f = cast<BodiedFunc>(util::getFunc(v->getCallee())); if (!f || n > 8) return;
    if ((seed * 7 + n++) % 4 == 0) return; if (getenv("INL") && atoi(getenv("INL")) != n) return;
    auto *M = v->getModule(); auto *P = cast<BodiedFunc>(getParentFunc()); if (!P || P->getId() == f->getId()) return;
    auto r = util::inlineCall(v, (seed + n) % 2);
    if (!r) return;
    for (auto *x : r.newVars) P->push_back(x);
    v->replaceAll(r.result);
  }
};
struct OutlinePass : public transform::OperatorPass {
  int seed; int n = 0; OutlinePass(int s) : seed(s) {}
  string getKey() const override { return "verif-outline"; }
  void run(Module *M) override {
    vector<std::pair<BodiedFunc *, SeriesFlow *>> todo;
    struct Find : public util::Operator { vector<std::pair<BodiedFunc *, SeriesFlow *>> *t; BodiedFunc *f; void handle(SeriesFlow *s) override { t->push_back({f, s}); } };
    vector<BodiedFunc *> fs{cast<BodiedFunc>(M->getMainFunc())}; for (auto *v : *M) if (auto *f = cast<BodiedFunc>(v)) fs.push_back(f);
    for (auto *f : fs) { Find d; d.t = &todo; d.f = f; f->accept(d); }
    std::mt19937 r(seed); std::shuffle(todo.begin(), todo.end(), r); int done = 0;
    for (auto &p : todo) {
      auto *s = p.second; int len = std::distance(s->begin(), s->end()); if (!len || done >= 2) continue;
      auto b = s->begin(); std::advance(b, r() % len); auto e = b; std::advance(e, 1 + r() % std::distance(b, s->end()));
      auto res = util::outlineRegion(p.first, s, b, e, /*allowOutflows=*/(seed & 1), /*outlineGlobals=*/(seed & 2) != 0);
      if (!res) continue;
      done++;
    }
  }
};
static void passes(Module *M, const string &ps, int seed) {
  using namespace transform; using namespace analyze;
  for (char c : ps) {
    PassManager pm(PassManager::Init::EMPTY);
    auto cfg = pm.registerAnalysis(std::make_unique<dataflow::CFAnalysis>());
    auto rd = pm.registerAnalysis(std::make_unique<dataflow::RDAnalysis>(cfg), {cfg});
    auto dom = pm.registerAnalysis(std::make_unique<dataflow::DominatorAnalysis>(cfg), {cfg});
    auto cap = pm.registerAnalysis(std::make_unique<dataflow::CaptureAnalysis>(rd, dom), {rd, dom});
    auto gv = pm.registerAnalysis(std::make_unique<module::GlobalVarsAnalyses>());
    bool flag = c == 'h' || c == 'F';
    auto se = pm.registerAnalysis(std::make_unique<module::SideEffectAnalysis>(cap, flag), {cap});
    if (c == 'h' || c == 'c') pm.registerPass(std::make_unique<cleanup::DeadCodeCleanupPass>(se), "", {se}, {});
    else if (c == 'g') pm.registerPass(std::make_unique<cleanup::GlobalDemotionPass>());
    else if (c == 'f') pm.registerPass(std::make_unique<folding::FoldingPass>(false));
    else if (c == 'p') pm.registerPass(std::make_unique<folding::ConstPropPass>(rd, gv), "", {rd, gv}, {});
    else if (c == 'k') pm.registerPass(std::make_unique<cleanup::CanonicalizationPass>(se), "", {se}, {});
    else if (c == 'F' || c == 'G') pm.registerPass(std::make_unique<folding::FoldingPassGroup>(se, rd, gv, 5, c == 'G', false), "", {se, rd, gv}, {se, rd, cfg, gv, cap, dom});
    else if (c == 'C') pm.registerPass(std::make_unique<ClonePass>());
    else if (c == 'D') pm.registerPass(std::make_unique<CloneFuncPass>());
    else if (c == 'I') pm.registerPass(std::make_unique<InlinePass>(seed));
    else if (c == 'O') pm.registerPass(std::make_unique<OutlinePass>(seed));
    pm.run(M);
  }
}
static string dump(Module *M) { std::ostringstream s; util::format(s, M); return s.str(); }
// directed programs: (name, passes, builder)
struct Scen {
  Gen g; Module *M; SeriesFlow *m; Var *G, *N;
  Scen() {
    M = g.M = (Module *)h_module(); g.I = M->getIntType(); g.B = M->getBoolType(); g.V = M->getVoidType(); g.OT = M->unsafeGetMemberedType("Obj", true); cast<types::RefType>(g.OT)->realize({g.I}, {"x"});
    g.external("print", g.V, {g.I}); g.external("newobj", g.OT, {}, util::NO_SIDE_EFFECT_ATTR); g.external("input", g.I, {});
    g.ops["__add__"] = (Func *)h_method(M, g.I, "__add__", g.I, g.I, g.I, 11);
    G = M->Nr<Var>(g.OT, true, false, false, "G"); N = M->Nr<Var>(g.I, true, false, false, "N");
    m = M->Nr<SeriesFlow>(); cast<BodiedFunc>(M->getMainFunc())->setBody(m);
  }
  BodiedFunc *fn(const char *n, types::Type *r) { auto *f = M->Nr<BodiedFunc>(n); f->realize(M->unsafeGetFuncType(string("t.") + n, r, {}), {}); f->setUnmangledName(n); f->setBody(M->Nr<SeriesFlow>()); return f; }
  static SeriesFlow *b(BodiedFunc *f) { return cast<SeriesFlow>(f->getBody()); }
  Value *print(Value *v) { return g.callf(g.ext["print"], {v}); }
  Value *add(Value *x, Value *y) { return g.callf(g.ops["__add__"], {x, y}); }
  Value *set(Var *v, Value *x) { return M->Nr<AssignInstr>(v, x); }
  Value *num(int n) { return M->getInt(n); }
  Var *loc(BodiedFunc *f, types::Type *t, const char *n) { auto *v = M->Nr<Var>(t, false, false, false, n); f->push_back(v); return v; }
};
static void scenarios(FILE *out) {
  auto go = [&](string name, const char *ps, std::function<void(Scen &)> f) {
    int pp[2]; if (pipe(pp)) return; pid_t pid = fork();
    if (!pid) { alarm(10); FILE *w = fdopen(pp[1], "w"); Scen s; f(s); if (*ps == '!') { Facts fa(s.M); fa.strict = true; Interp a; a.facts = &fa; a.run(s.M); fprintf(w, "%s %s\n", name.c_str(), fa.bad.empty() ? "ok" : ("DIFF " + fa.bad).c_str()); fclose(w); _exit(0); } string x, y; { Interp a; x = a.run(s.M); } passes(s.M, ps, 1); { Interp c; y = c.run(s.M); } fprintf(w, "%s %s\n", name.c_str(), x == y ? "ok" : ("DIFF before " + x + " after " + y).c_str()); fflush(w); _exit(0); }
    close(pp[1]); FILE *r = fdopen(pp[0], "r"); char *buf = nullptr; size_t n = 0; bool got = false; while (getline(&buf, &n, r) > 0) { fputs(buf, out); got = true; }
    fclose(r); int st; waitpid(pid, &st, 0); if (!got) fprintf(out, "%s CRASH %d\n", name.c_str(), st);
  };
  for (int k = 0; k < 4; k++) {
    static const char *nm[] = {"insert-through-call-returning-global", "insert-through-local-from-call-returning-global", "insert-through-local-alias-of-global", "insert-into-global"};
    go(nm[k], "c", [k](Scen &s) {
      auto &g = s.g; auto *M = s.M; auto *get = s.fn("get", g.OT); s.b(get)->push_back(M->Nr<ReturnInstr>(g.vv(s.G)));
      auto *f = s.fn("f", g.V); auto *fb = s.b(f); auto *l = s.loc(f, g.OT, "l");
      if (k == 0) fb->push_back(M->Nr<InsertInstr>(g.callf(get, {}), "x", s.num(5)));
      else if (k < 3) { fb->push_back(s.set(l, k == 1 ? g.callf(get, {}) : g.vv(s.G))); fb->push_back(M->Nr<InsertInstr>(g.vv(l), "x", s.num(5))); }
      else fb->push_back(M->Nr<InsertInstr>(g.vv(s.G), "x", s.num(5)));
      s.m->push_back(s.set(s.G, g.callf(g.ext["newobj"], {}))); s.m->push_back(s.print(M->Nr<ExtractInstr>(g.callf(get, {}), "x"))); s.m->push_back(g.callf(f, {})); s.m->push_back(s.print(M->Nr<ExtractInstr>(g.vv(s.G), "x"))); });
  }
  go("global-kept-between-calls-of-its-only-function", "g", [](Scen &s) { // def f(): N += 1; print(N)   called twice, N set nowhere else
    auto *f = s.fn("f", s.g.V); s.b(f)->push_back(s.set(s.N, s.add(s.g.vv(s.N), s.num(1)))); s.b(f)->push_back(s.print(s.g.vv(s.N)));
    s.m->push_back(s.g.callf(f, {})); s.m->push_back(s.g.callf(f, {})); });
  // one effect in every operand position of every statement, everything else free of effects
  for (int wrap = 0; wrap < 2; wrap++) for (int k = 0; k < 34; k++) for (const char *ps : {"h", "c", "G"}) {
    string nm = "effect-in-position-" + std::to_string(k) + (wrap ? "-of-a-function-" : "-") + ps;
    go(nm.c_str(), ps, [k, wrap](Scen &s) {
      auto &g = s.g; auto *M = s.M; BodiedFunc *f = wrap ? s.fn("f", g.I) : cast<BodiedFunc>(M->getMainFunc()); auto *b = s.b(f); auto *pi = s.fn("pi", g.I);
      s.b(pi)->push_back(s.print(s.num(7))); s.b(pi)->push_back(M->Nr<ReturnInstr>(s.num(1)));
      g.ops["__lt__"] = (Func *)h_method(M, g.I, "__lt__", g.B, g.I, g.I, 8);
      auto E = [&]() -> Value * { return g.callf(pi, {}); }; auto ES = [&]() -> Value * { return s.print(s.num(8)); };
      auto EB = [&]() -> Value * { return g.callf(g.ops["__lt__"], {g.callf(pi, {}), s.num(5)}); };
      auto T = [&]() -> Value * { auto *q = s.loc(f, g.B, "q"); b->push_back(s.set(q, M->getBool(true))); return g.vv(q); };
      auto fl = [&](Value *x = nullptr) { auto *r = M->Nr<SeriesFlow>(); if (x) r->push_back(x); return r; };
      auto *u = s.loc(f, g.I, "u"), *i = s.loc(f, g.I, "i"); auto *e = s.loc(f, g.OT, "e"); auto O = [&]() -> Value * { return g.callf(g.ext["newobj"], {}); };
      auto tr = [&](Flow *body, Flow *h, Flow *el, Flow *fi, bool var = false) { auto *t = M->Nr<TryCatchFlow>(body, fi, el); if (h) t->push_back(TryCatchFlow::Catch(h, g.OT, var ? e : nullptr)); return t; };
      auto thr = [&] { return M->Nr<ThrowInstr>(O()); }; Value *x = nullptr;
      switch (k) {
      case 0: x = M->Nr<IfFlow>(EB(), fl(), fl()); break; case 1: x = M->Nr<IfFlow>(T(), fl(ES())); break; case 2: x = M->Nr<IfFlow>(T(), fl(ES()), fl()); break;
      case 3: { auto *q = s.loc(f, g.B, "q2"); b->push_back(s.set(q, M->getBool(false))); x = M->Nr<IfFlow>(g.vv(q), fl(), fl(ES())); break; }
      case 4: { auto *bb = fl(); auto *w = M->Nr<WhileFlow>(EB(), bb); bb->push_back(M->Nr<BreakInstr>(w)); x = w; break; } case 5: { auto *bb = fl(ES()); auto *w = M->Nr<WhileFlow>(T(), bb); bb->push_back(M->Nr<BreakInstr>(w)); x = w; break; }
      case 6: x = M->Nr<ImperativeForFlow>(E(), 1, s.num(3), fl(), i); break; case 7: x = M->Nr<ImperativeForFlow>(s.num(0), 1, E(), fl(), i); break; case 8: x = M->Nr<ImperativeForFlow>(s.num(0), 1, s.num(2), fl(ES()), i); break; case 9: x = M->Nr<ImperativeForFlow>(s.num(3), -9, s.num(0), fl(ES()), i); break;
      case 10: x = tr(fl(ES()), nullptr, nullptr, nullptr); break; case 11: x = tr(fl(), nullptr, fl(ES()), nullptr); break; case 12: x = tr(fl(), nullptr, fl(ES()), fl()); break; case 13: x = tr(fl(), nullptr, nullptr, fl(ES())); break;
      case 14: x = tr(fl(), fl(), fl(ES()), nullptr); break; case 15: x = tr(fl(), fl(), nullptr, fl(ES())); break; case 16: x = tr(fl(thr()), fl(ES()), nullptr, nullptr); break; case 17: x = tr(fl(thr()), fl(ES()), fl(), fl(), true); break;
      case 18: x = M->Nr<TernaryInstr>(EB(), s.num(1), s.num(2)); break; case 19: x = M->Nr<TernaryInstr>(T(), E(), s.num(2)); break; case 20: { auto *q = s.loc(f, g.B, "q2"); b->push_back(s.set(q, M->getBool(false))); x = M->Nr<TernaryInstr>(g.vv(q), s.num(2), E()); break; }
      case 21: x = s.add(E(), s.num(2)); break; case 22: x = s.add(s.num(2), E()); break; case 23: x = M->Nr<FlowInstr>(fl(ES()), s.num(1)); break; case 24: x = M->Nr<FlowInstr>(fl(), E()); break;
      case 25: x = M->Nr<ExtractInstr>(M->Nr<FlowInstr>(fl(ES()), O()), "x"); break; case 26: x = M->Nr<InsertInstr>(M->Nr<FlowInstr>(fl(ES()), O()), "x", s.num(1)); break; case 27: x = M->Nr<InsertInstr>(O(), "x", E()); break;
      case 28: x = s.set(u, E()); break; case 29: x = s.set(s.N, s.num(6)); break; case 30: x = fl(fl(fl(ES()))); break; case 31: x = M->Nr<InsertInstr>(g.vv(s.G), "x", s.num(6)); break;
      case 32: { auto *h = s.fn("h", g.V); s.b(h)->push_back(tr(fl(thr()), fl(M->Nr<InsertInstr>(g.vv(s.G), "x", s.num(4))), nullptr, nullptr)); x = g.callf(h, {}); break; }
      case 33: { auto *h = s.fn("h", g.V), *h2 = s.fn("h2", g.V); auto *q = s.loc(h, g.B, "q"); // mutual recursion, the effect behind it
        s.b(h)->push_back(s.set(q, M->getBool(false))); s.b(h)->push_back(M->Nr<IfFlow>(g.vv(q), fl(g.callf(h2, {})))); s.b(h)->push_back(ES()); s.b(h2)->push_back(g.callf(h, {})); s.m->push_back(g.callf(h, {})); x = g.callf(h2, {}); break; }
      }
      if (!wrap) { s.m->insert(s.m->begin(), s.set(s.G, O())); s.m->insert(s.m->begin(), s.set(s.N, s.num(1))); } else { s.m->push_back(s.set(s.G, O())); s.m->push_back(s.set(s.N, s.num(1))); }
      b->push_back(x); if (wrap) { b->push_back(M->Nr<ReturnInstr>(s.num(3))); s.m->push_back(g.callf(f, {})); s.m->push_back(g.callf(f, {})); }
      s.m->push_back(s.print(g.vv(s.N))); s.m->push_back(s.print(M->Nr<ExtractInstr>(g.vv(s.G), "x"))); });
  }
  go("global-of-main", "g", [](Scen &s) { s.m->push_back(s.set(s.N, s.num(4))); s.m->push_back(s.print(s.g.vv(s.N))); });
  go("global-shared-by-two-functions", "g", [](Scen &s) { auto *f = s.fn("f", s.g.V); s.b(f)->push_back(s.set(s.N, s.num(7))); s.m->push_back(s.set(s.N, s.num(4))); s.m->push_back(s.g.callf(f, {})); s.m->push_back(s.print(s.g.vv(s.N))); });
  go("break-in-constant-branch", "c", [](Scen &s) { // while true: (print 1; if true: break outer)
    auto *M = s.M; auto *b = M->Nr<SeriesFlow>(); auto *w = M->Nr<WhileFlow>(M->getBool(true), b); b->push_back(s.print(s.num(1)));
    auto *in = M->Nr<SeriesFlow>(); in->push_back(M->Nr<BreakInstr>(w)); b->push_back(M->Nr<IfFlow>(M->getBool(true), in)); s.m->push_back(w); s.m->push_back(s.print(s.num(2))); });
  for (int k = 0; k < 3; k++) {
    static const char *nm[] = {"assignment-after-break", "assignment-after-continue", "assignment-after-return"};
    go(nm[k], "p", [k](Scen &s) {
      auto *M = s.M; auto *f = s.fn("f", s.g.I); auto *x = s.loc(f, s.g.I, "x"); auto *c = s.loc(f, s.g.I, "c"); auto *fb = s.b(f); auto *b = M->Nr<SeriesFlow>();
      auto *cond = M->Nr<VarValue>(c); (void)cond; Var *flag = s.loc(f, s.g.B, "q");
      fb->push_back(s.set(x, s.num(1))); fb->push_back(s.set(flag, M->getBool(true)));
      auto *w = M->Nr<WhileFlow>(s.g.vv(flag), b); b->push_back(s.set(flag, M->getBool(false))); b->push_back(s.set(x, s.g.callf(s.g.ext["input"], {})));
      auto *in = M->Nr<SeriesFlow>(); in->push_back(k == 0 ? (Value *)M->Nr<BreakInstr>(w) : k == 1 ? (Value *)M->Nr<ContinueInstr>(w) : M->Nr<ReturnInstr>(s.g.vv(x))); in->push_back(s.set(x, s.num(4))); b->push_back(in);
      fb->push_back(w); fb->push_back(M->Nr<ReturnInstr>(s.g.vv(x))); s.m->push_back(s.print(s.g.callf(f, {}))); });
  }
  go("while-condition-assigns-after-branch", "p", [](Scen &s) { // x = 1; while (q ? 0 : 0; x = 2; q): print(x); q = False
    auto *M = s.M; auto *f = s.fn("f", s.g.I); auto *x = s.loc(f, s.g.I, "x"), *q = s.loc(f, s.g.B, "q"); auto *fb = s.b(f); auto *b = M->Nr<SeriesFlow>(), *c = M->Nr<SeriesFlow>();
    fb->push_back(s.set(x, s.num(1))); fb->push_back(s.set(q, M->Nr<TernaryInstr>(M->getBool(true), M->getBool(true), M->getBool(false))));
    c->push_back(M->Nr<TernaryInstr>(s.g.vv(q), s.num(0), s.num(0))); c->push_back(s.set(x, s.num(2)));
    b->push_back(s.print(s.g.vv(x))); b->push_back(s.set(q, M->getBool(false))); fb->push_back(M->Nr<WhileFlow>(M->Nr<FlowInstr>(c, s.g.vv(q)), b));
    fb->push_back(M->Nr<ReturnInstr>(s.g.vv(x))); s.m->push_back(s.print(s.g.callf(f, {}))); });
  for (int k = 0; k < 2; k++) { // while q: x = 1; try: break (or return x) finally: { if q: print(7) }; x = 2    then: print(x)
    static const char *nm[] = {"break-through-branching-finally", "break-through-nested-finally"};
    go(nm[k], "p", [k](Scen &s) {
      auto *M = s.M; auto *f = s.fn("f", s.g.I); auto *x = s.loc(f, s.g.I, "x"), *q = s.loc(f, s.g.B, "q"); auto *fb = s.b(f); auto *b = M->Nr<SeriesFlow>(), *t = M->Nr<SeriesFlow>(), *fin = M->Nr<SeriesFlow>(), *p = M->Nr<SeriesFlow>();
      fb->push_back(s.set(q, M->Nr<TernaryInstr>(M->getBool(true), M->getBool(true), M->getBool(false)))); auto *w = M->Nr<WhileFlow>(s.g.vv(q), b);
      b->push_back(s.set(x, s.num(1))); t->push_back(M->Nr<BreakInstr>(w)); p->push_back(s.print(s.num(7))); fin->push_back(M->Nr<IfFlow>(s.g.vv(q), p)); fin->push_back(s.set(x, s.num(2)));
      Value *tc = M->Nr<TryCatchFlow>(t, fin); if (k) { auto *o = M->Nr<SeriesFlow>(), *of = M->Nr<SeriesFlow>(); o->push_back(tc); of->push_back(s.print(s.num(8))); tc = M->Nr<TryCatchFlow>(o, of); }
      b->push_back(tc); b->push_back(M->Nr<ReturnInstr>(s.num(9))); fb->push_back(w); fb->push_back(M->Nr<ReturnInstr>(s.g.vv(x))); s.m->push_back(s.print(s.g.callf(f, {}))); });
  }
  for (int k = 0; k < 4; k++) { // def get(): return X     def f(a): get().o = a       X = newbox(); f(newobj())
    static const char *nm[] = {"capture-through-call-returning-global", "capture-through-global", "capture-through-local-alias-of-global", "capture-through-extracted-member"};
    go(nm[k], "!", [k](Scen &s) {
      auto &g = s.g; auto *M = s.M; g.XT = M->unsafeGetMemberedType("Box", true); cast<types::RefType>(g.XT)->realize({g.OT, g.I}, {"o", "x"}); g.external("newbox", g.XT, {}, util::NO_SIDE_EFFECT_ATTR);
      auto *X = M->Nr<Var>(g.XT, true, false, false, "X"); auto *get = s.fn("get", g.XT); s.b(get)->push_back(M->Nr<ReturnInstr>(g.vv(X)));
      auto *f = M->Nr<BodiedFunc>("f"); f->realize(M->unsafeGetFuncType("t.f", g.V, {g.OT}), {"a"}); f->setUnmangledName("f"); f->setBody(M->Nr<SeriesFlow>()); auto *a = f->arg_front(); auto *l = s.loc(f, g.XT, "l"); auto *m = s.loc(f, g.OT, "m");
      if (k == 2) s.b(f)->push_back(s.set(l, g.vv(X)));
      if (k == 3) { s.b(f)->push_back(s.set(m, g.vv(a))); s.b(f)->push_back(M->Nr<InsertInstr>(g.vv(X), "o", g.vv(m))); }
      else s.b(f)->push_back(M->Nr<InsertInstr>(k == 0 ? g.callf(get, {}) : g.vv(k == 1 ? X : l), "o", g.vv(a)));
      s.m->push_back(s.set(X, g.callf(g.ext["newbox"], {}))); s.m->push_back(g.callf(f, {g.callf(g.ext["newobj"], {})})); });
  }
  for (int k = 0; k < 4; k++) { // while q: x = 1; q = False; try: { try: break / continue / return x / raise finally: print(7) } finally: x = 2     then: return x
    static const char *nm[] = {"break-through-outer-finally", "continue-through-outer-finally", "return-through-outer-finally", "raise-through-outer-finally"};
    for (const char *ps : {"p", "!"}) go(*ps == 'p' ? string(nm[k]) : string(nm[k]) + "-facts", ps, [k](Scen &s) {
      auto *M = s.M; auto *f = s.fn("f", s.g.I); auto *x = s.loc(f, s.g.I, "x"), *q = s.loc(f, s.g.B, "q"); auto *fb = s.b(f); auto *b = M->Nr<SeriesFlow>(), *t = M->Nr<SeriesFlow>(), *fin = M->Nr<SeriesFlow>(), *o = M->Nr<SeriesFlow>(), *of = M->Nr<SeriesFlow>();
      fb->push_back(s.set(q, M->Nr<TernaryInstr>(M->getBool(true), M->getBool(true), M->getBool(false)))); auto *w = M->Nr<WhileFlow>(s.g.vv(q), b); b->push_back(s.set(x, s.num(1))); b->push_back(s.set(q, M->getBool(false)));
      t->push_back(k == 0 ? (Value *)M->Nr<BreakInstr>(w) : k == 1 ? (Value *)M->Nr<ContinueInstr>(w) : k == 2 ? (Value *)M->Nr<ReturnInstr>(s.g.vv(x)) : M->Nr<ThrowInstr>(s.g.callf(s.g.ext["newobj"], {}))); fin->push_back(s.print(s.num(7))); fin->push_back(s.set(x, s.num(3)));
      of->push_back(s.print(s.g.vv(x))); of->push_back(s.set(x, s.num(2))); o->push_back(M->Nr<TryCatchFlow>(t, fin)); Value *tc = M->Nr<TryCatchFlow>(o, of);
      if (k == 3) { auto *c = M->Nr<SeriesFlow>(), *h = M->Nr<SeriesFlow>(); c->push_back(tc); auto *z = M->Nr<TryCatchFlow>(c); z->push_back(TryCatchFlow::Catch(h)); tc = z; }
      b->push_back(tc); b->push_back(s.print(s.g.vv(x))); fb->push_back(w); fb->push_back(M->Nr<ReturnInstr>(s.g.vv(x))); s.m->push_back(s.print(s.g.callf(f, {}))); });
  }
  for (int k = 0; k < 6; k++) { // def put(box, a): box.o = a  (or with the parameters the other way round)    def f(box, a): put(box, a); [return box | G = box]
    static const char *nm[] = {"capture-in-earlier-argument", "capture-in-later-argument", "capture-in-earlier-argument-returned", "capture-in-later-argument-returned", "capture-in-earlier-argument-made-global", "capture-in-later-argument-made-global"};
    go(nm[k], "!", [k](Scen &s) {
      auto &g = s.g; auto *M = s.M; bool rev = k & 1; g.XT = M->unsafeGetMemberedType("Box", true); cast<types::RefType>(g.XT)->realize({g.OT, g.I}, {"o", "x"}); g.external("newbox", g.XT, {}, util::NO_SIDE_EFFECT_ATTR);
      auto *X = M->Nr<Var>(g.XT, true, false, false, "X"), *Y = M->Nr<Var>(g.XT, true, false, false, "Y");
      auto mk = [&](const char *n, types::Type *r) { auto *f = M->Nr<BodiedFunc>(n); f->realize(M->unsafeGetFuncType(string("t.") + n, r, rev ? vector<types::Type *>{g.OT, g.XT} : vector<types::Type *>{g.XT, g.OT}), {"a0", "a1"}); f->setUnmangledName(n); f->setBody(M->Nr<SeriesFlow>()); return f; };
      auto *put = mk("put", g.V); s.b(put)->push_back(M->Nr<InsertInstr>(g.vv(rev ? put->arg_back() : put->arg_front()), "o", g.vv(rev ? put->arg_front() : put->arg_back())));
      auto *f = mk("f", k / 2 == 1 ? g.XT : g.V); s.b(f)->push_back(g.callf(put, {g.vv(f->arg_front()), g.vv(f->arg_back())})); auto *box = rev ? f->arg_back() : f->arg_front();
      if (k / 2 == 1) s.b(f)->push_back(M->Nr<ReturnInstr>(g.vv(box)));
      if (k / 2 == 2) s.b(f)->push_back(s.set(Y, g.vv(box)));
      s.m->push_back(s.set(X, g.callf(g.ext["newbox"], {}))); Value *o = g.callf(g.ext["newobj"], {}); s.m->push_back(rev ? g.callf(f, {o, g.vv(X)}) : g.callf(f, {g.vv(X), o})); });
  }
  for (int k = 0; k < 2; k++) { // N = 5; for N in range(0, 3): print(N)      N = G = newobj; try: raise except G: print(G.x)
    static const char *nm[] = {"loop-over-global-variable", "loop-over-global-variable-read-after"};
    go(nm[k], "p", [k](Scen &s) {
      auto *M = s.M; auto *b = M->Nr<SeriesFlow>(); s.m->push_back(s.set(s.N, s.num(5))); b->push_back(s.print(k ? s.num(1) : s.g.vv(s.N))); s.m->push_back(M->Nr<ImperativeForFlow>(s.num(0), 1, s.num(3), b, s.N)); s.m->push_back(s.print(s.g.vv(s.N))); });
  }
  for (int k = 0; k < 3; k++) { // i = 3; for i in range(0, i): print(i)
    static const char *nm[] = {"range-end-reads-loop-variable", "range-start-reads-loop-variable", "empty-range-keeps-loop-variable"};
    go(nm[k], "p", [k](Scen &s) {
      auto *M = s.M; auto *f = s.fn("f", s.g.I); auto *i = s.loc(f, s.g.I, "i"); auto *fb = s.b(f); auto *b = M->Nr<SeriesFlow>();
      fb->push_back(s.set(i, s.num(3))); b->push_back(s.print(s.g.vv(i)));
      fb->push_back(k == 0 ? M->Nr<ImperativeForFlow>(s.num(0), 1, s.g.vv(i), b, i) : k == 1 ? M->Nr<ImperativeForFlow>(s.g.vv(i), 1, s.num(5), b, i) : M->Nr<ImperativeForFlow>(s.num(7), 1, s.num(7), b, i));
      fb->push_back(M->Nr<ReturnInstr>(s.g.vv(i))); s.m->push_back(s.print(s.g.callf(f, {}))); });
  }
}
extern "C" int flow_main(int argc, char **argv) __attribute__((weak));
int main(int argc, char **argv) {
  if (argc > 2 && flow_main && (!strcmp(argv[1], "graphs") || !strcmp(argv[1], "schedules") || !strcmp(argv[1], "standard"))) return flow_main(argc, argv);
  if (!strcmp(argv[1], "scen")) { FILE *out = fopen(argv[2], "w"); scenarios(out); fclose(out); _exit(0); }
  string ps = argv[1]; uint64_t s0 = strtoull(argv[2], 0, 10);
  bool early = getenv("LATE_GLOBALS") != nullptr;
  if (!strcmp(argv[3], "dump")) {
    Gen g; g.useEarlyGlobals = early; g.facts = ps.find('!') != string::npos || ps.find('*') != string::npos; g.build(s0); printf("%s\n", dump(g.M).c_str()); Interp a; printf("BEFORE %s\n", a.run(g.M).c_str());
    passes(g.M, ps, (int)s0); printf("%s\n", dump(g.M).c_str()); Interp b; printf("AFTER %s\n", b.run(g.M).c_str()); fflush(stdout); _exit(0);
  }
  long cnt = atol(argv[3]); FILE *out = fopen(argv[4], "w");
  for (long i = 0; i < cnt;) {
    fflush(out); int pp[2]; if (pipe(pp)) return 3;
    pid_t pid = fork();
    if (!pid) {
      struct rlimit rl{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_AS, &rl);
      FILE *w = fdopen(pp[1], "w"); close(pp[0]);
      for (long j = i, k = 0; j < cnt && k < 200; j++, k++) {
        alarm(8); string r = "ok";
        Gen g; g.useEarlyGlobals = early; g.facts = ps.find('!') != string::npos || ps.find('*') != string::npos; g.build(s0 + j);
        if (ps == "!") { // the facts themselves
          Facts fa(g.M); Interp a; a.facts = &fa; string x = a.run(g.M); if (a.unset) x = "stop unset";
          if (fa.bad.empty()) r = x.find("stop ") != string::npos ? "skip " + x.substr(x.find("stop ")) : "ok"; else if (a.unset) r = "skip stop unset"; else r = "DIFF " + fa.bad;
          for (auto &c : r) if (c == '\n') c = ' ';
          fputs((std::to_string(s0 + j) + " " + r + "\n").c_str(), w); fflush(w); continue;
        }
        string x, y; { Interp a; x = a.run(g.M); if (a.unset) x = "stop unset"; }
        try { passes(g.M, ps, (int)(s0 + j)); } catch (const std::exception &e) { r = string("pass threw ") + e.what(); }
        if (x.size() >= 4 && x.find("stop ") != string::npos) r = "skip " + x.substr(x.find("stop "));
        else if (r == "ok") { Interp b; b.limit *= 20; y = b.run(g.M); if (x != y) r = "DIFF before " + x.substr(0, 300) + " after " + y.substr(0, 300); }
        for (auto &c : r) if (c == '\n') c = ' ';
        fputs((std::to_string(s0 + j) + " " + r + "\n").c_str(), w); fflush(w);
      }
      _exit(0);
    }
    close(pp[1]); FILE *rf = fdopen(pp[0], "r"); char *buf = nullptr; size_t n = 0; long got = 0;
    while (getline(&buf, &n, rf) > 0) { fputs(buf, out); got++; }
    fclose(rf); int st; waitpid(pid, &st, 0); i += got;
    if (WIFSIGNALED(st)) { fprintf(out, "%llu CRASH signal %d\n", (unsigned long long)(s0 + i), WTERMSIG(st)); i++; }
    else if (!got) { fprintf(out, "%llu CRASH exit %d\n", (unsigned long long)(s0 + i), WEXITSTATUS(st)); i++; }
  }
  fclose(out); fflush(stdout); _exit(0);
}
