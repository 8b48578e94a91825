// One instance of every IR node kind with its operand positions listed through public accessors; compiled to LLVM IR for the
// proofs and natively for the bounded runs.  Slots are what the node was built from; getUsed*/replaceUsed* are what is checked.
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "codon/cir/cir.h"
#include "codon/cir/module.h"
#include "codon/cir/transform/parallel/schedule.h"
using namespace codon::ir;
template <class T> using Get = std::function<T *()>;
struct Case {
  std::string name; Node *node = nullptr; types::Type *type = nullptr; // type: expected getType(), null if not a value
  std::vector<Value *> v0; std::vector<Get<Value>> vals;
  std::vector<Var *> x0; std::vector<Get<Var>> vars;
  std::vector<types::Type *> t0; std::vector<Get<types::Type>> types;
  std::vector<Value *> usedV; std::vector<Var *> usedX; std::vector<types::Type *> usedT;
};
static Module *M; static int LMAX = 5; static std::vector<Case *> *cases; static types::Type *TA, *TB, *TC, *TN;
static Value *val(types::Type *t = nullptr) { return M->Nr<VarValue>(M->Nr<Var>(t ? t : TA)); }
static Flow *flow() { return M->Nr<SeriesFlow>(); }
static Var *var(types::Type *t = nullptr) { return M->Nr<Var>(t ? t : TA); }
struct B { // case builder
  Case *c; B(const char *n) { c = new Case(); c->name = n; cases->push_back(c); }
  template <class N> N *node(N *n) { c->node = n; return n; }
  B &v(Value *x, Get<Value> g) { c->v0.push_back(x); c->vals.push_back(std::move(g)); return *this; }
  B &x(Var *x, Get<Var> g) { c->x0.push_back(x); c->vars.push_back(std::move(g)); return *this; }
  B &t(types::Type *x, Get<types::Type> g) { c->t0.push_back(x); c->types.push_back(std::move(g)); return *this; }
};
static types::Type *tyOf(int k) { return k == 0 ? TA : k == 1 ? TB : TC; }
template <class I> static auto nth(I it, int n) { while (n--) ++it; return it; }
static void sched(B &b, transform::parallel::OMPSched *s) {
  if (s->threads) b.v(s->threads, [s] { return s->threads; });
  if (s->chunk) b.v(s->chunk, [s] { return s->chunk; });
}
static void constants() {
  { B b("IntConst"); auto *n = b.node(M->N<IntConst>(codon::SrcInfo(), 5, TA)); b.t(TA, [n] { return n->getType(); }); b.c->type = TA; }
  { B b("FloatConst"); auto *n = b.node(M->N<FloatConst>(codon::SrcInfo(), 5.5, TB)); b.t(TB, [n] { return n->getType(); }); b.c->type = TB; }
  { B b("BoolConst"); auto *n = b.node(M->N<BoolConst>(codon::SrcInfo(), true, TB)); b.t(TB, [n] { return n->getType(); }); b.c->type = TB; }
  { B b("StringConst"); auto *n = b.node(M->N<StringConst>(codon::SrcInfo(), "s", TA)); b.t(TA, [n] { return n->getType(); }); b.c->type = TA; }
  { B b("Var"); auto *n = b.node(var(TB)); b.t(TB, [n] { return n->getType(); }); }
  { B b("VarValue"); auto *x = var(TB); auto *n = b.node(M->Nr<VarValue>(x)); b.x(x, [n] { return n->getVar(); }); b.c->type = TB; }
  { B b("PointerValue"); auto *x = var(TB); auto *n = b.node(M->Nr<PointerValue>(x)); b.x(x, [n] { return n->getVar(); }); b.c->type = M->getPointerType(TB); }
}
static void instrs() {
  { B b("AssignInstr"); auto *x = var(); auto *r = val(); auto *n = b.node(M->Nr<AssignInstr>(x, r)); b.x(x, [n] { return n->getLhs(); }).v(r, [n] { return n->getRhs(); }); b.c->type = TN; }
  { B b("ExtractInstr"); auto *rt = M->unsafeGetMemberedType("Rec", true); cast<types::RefType>(rt)->realize({TA, TB}, {"p", "q"}); auto *r = val(rt); auto *n = b.node(M->Nr<ExtractInstr>(r, "q")); b.v(r, [n] { return n->getVal(); }); b.c->type = TB; }
  { B b("InsertInstr"); auto *l = val(TB), *r = val(); auto *n = b.node(M->Nr<InsertInstr>(l, "p", r)); b.v(l, [n] { return n->getLhs(); }).v(r, [n] { return n->getRhs(); }); b.c->type = TB; }
  for (int k = 0; k < LMAX; k++) {
    B b("CallInstr"); b.c->name += std::to_string(k);
    std::vector<types::Type *> at(k, TA); auto *ft = M->unsafeGetFuncType("fn" + std::to_string(k), TB, at); auto *cal = val(ft);
    std::vector<Value *> a; for (int i = 0; i < k; i++) a.push_back(val());
    auto *n = b.node(M->Nr<CallInstr>(cal, a)); b.v(cal, [n] { return n->getCallee(); }); b.c->type = TB;
    for (int i = 0; i < k; i++) b.v(a[i], [n, i] { return *nth(n->begin(), i); });
  }
  { B b("StackAllocInstr"); auto *n = b.node(M->Nr<StackAllocInstr>(TB, 3)); b.t(TB, [n] { return n->getArrayType(); }); b.c->type = TB; }
  for (auto p : {TypePropertyInstr::SIZEOF, TypePropertyInstr::IS_ATOMIC, TypePropertyInstr::IS_CONTENT_ATOMIC}) {
    B b("TypePropertyInstr"); b.c->name += std::to_string((int)p); auto *n = b.node(M->Nr<TypePropertyInstr>(TB, p)); b.t(TB, [n] { return n->getInspectType(); });
    b.c->type = p == TypePropertyInstr::SIZEOF ? M->getIntType() : M->getBoolType(); }
  { B b("YieldInInstr"); auto *n = b.node(M->Nr<YieldInInstr>(TB)); b.t(TB, [n] { return n->getType(); }); b.c->type = TB; }
  { B b("TernaryInstr"); auto *p = val(), *q = val(TB), *r = val(TB); auto *n = b.node(M->Nr<TernaryInstr>(p, q, r)); b.v(p, [n] { return n->getCond(); }).v(q, [n] { return n->getTrueValue(); }).v(r, [n] { return n->getFalseValue(); }); b.c->type = TB; }
  for (int k = 0; k < 2; k++) {
    std::string s = k ? "" : " empty";
    { B b(("BreakInstr" + s).c_str()); auto *f = k ? flow() : nullptr; auto *n = b.node(M->Nr<BreakInstr>(f)); if (k) b.v(f, [n] { return n->getLoop(); }); b.c->type = TN; }
    { B b(("ContinueInstr" + s).c_str()); auto *f = k ? flow() : nullptr; auto *n = b.node(M->Nr<ContinueInstr>(f)); if (k) b.v(f, [n] { return n->getLoop(); }); b.c->type = TN; }
    { B b(("ReturnInstr" + s).c_str()); auto *f = k ? val() : nullptr; auto *n = b.node(M->Nr<ReturnInstr>(f)); if (k) b.v(f, [n] { return n->getValue(); }); b.c->type = TN; }
    { B b(("YieldInstr" + s).c_str()); auto *f = k ? val() : nullptr; auto *n = b.node(M->Nr<YieldInstr>(f)); if (k) b.v(f, [n] { return n->getValue(); }); b.c->type = TN; }
    { B b(("ThrowInstr" + s).c_str()); auto *f = k ? val() : nullptr; auto *n = b.node(M->Nr<ThrowInstr>(f)); if (k) b.v(f, [n] { return n->getValue(); }); b.c->type = TN; }
  }
  { B b("AwaitInstr"); auto *r = val(TA); auto *n = b.node(M->Nr<AwaitInstr>(r, TB)); b.v(r, [n] { return n->getValue(); }).t(TB, [n] { return n->getType(); }); b.c->type = TB; }
  { B b("FlowInstr"); auto *f = flow(); auto *r = val(TB); auto *n = b.node(M->Nr<FlowInstr>(f, r)); b.v(f, [n] { return n->getFlow(); }).v(r, [n] { return n->getValue(); }); b.c->type = TB; }
}
static void flows() {
  for (int k = 0; k < LMAX; k++) {
    B b(("SeriesFlow" + std::to_string(k)).c_str()); auto *n = b.node(M->Nr<SeriesFlow>()); b.c->type = TN;
    for (int i = 0; i < k; i++) { auto *r = i % 2 ? (Value *)flow() : val(); n->push_back(r); b.v(r, [n, i] { return *nth(n->begin(), i); }); } }
  { B b("WhileFlow"); auto *c = val(); auto *f = flow(); auto *n = b.node(M->Nr<WhileFlow>(c, f)); b.v(c, [n] { return n->getCond(); }).v(f, [n] { return n->getBody(); }); b.c->type = TN; }
  for (int k = 0; k < 5; k++) { // no schedule, or a schedule with / without thread count and chunk size
    auto mk = [k]() { return k ? std::make_unique<transform::parallel::OMPSched>(-1, false, (k - 1) & 1 ? val() : nullptr, (k - 1) & 2 ? val() : nullptr) : std::unique_ptr<transform::parallel::OMPSched>(); };
    { B b(("ForFlow" + std::to_string(k)).c_str()); auto *it = val(); auto *f = flow(); auto *x = var(); auto *n = b.node(M->Nr<ForFlow>(it, f, x, mk())); b.c->type = TN;
      b.v(it, [n] { return n->getIter(); }).v(f, [n] { return n->getBody(); }).x(x, [n] { return n->getVar(); }); if (k) sched(b, n->getSchedule()); }
    { B b(("ImperativeForFlow" + std::to_string(k)).c_str()); auto *s = val(), *e = val(); auto *f = flow(); auto *x = var(); auto *n = b.node(M->Nr<ImperativeForFlow>(s, 1, e, f, x, mk())); b.c->type = TN;
      b.v(s, [n] { return n->getStart(); }).v(e, [n] { return n->getEnd(); }).v(f, [n] { return n->getBody(); }).x(x, [n] { return n->getVar(); }); if (k) sched(b, n->getSchedule()); }
  }
  for (int k = 0; k < 2; k++) { B b(k ? "IfFlow else" : "IfFlow"); auto *c = val(); auto *t = flow(), *e = k ? flow() : nullptr; auto *n = b.node(M->Nr<IfFlow>(c, t, e)); b.c->type = TN;
    b.v(c, [n] { return n->getCond(); }).v(t, [n] { return n->getTrueBranch(); }); if (k) b.v(e, [n] { return n->getFalseBranch(); }); }
  // handlers: bit 0 = with type, bit 1 = with variable
  static const std::vector<std::vector<int>> HS = {{}, {0}, {3}, {1}, {2}, {3, 0}, {0, 3}, {3, 3}, {1, 2}, {2, 1, 3}};
  for (size_t h = 0; h < HS.size(); h++) for (int k = 0; k < (h < 3 ? 4 : 1); k++) {
    std::string nm = "TryCatchFlow" + std::to_string(k) + "/"; for (int q : HS[h]) nm += std::to_string(q);
    B b(nm.c_str()); auto *body = flow(), *fin = k & 1 ? flow() : nullptr, *els = k & 2 ? flow() : nullptr; auto *n = b.node(M->Nr<TryCatchFlow>(body, fin, els)); b.c->type = TN;
    b.v(body, [n] { return n->getBody(); }); if (fin) b.v(fin, [n] { return n->getFinally(); }); if (els) b.v(els, [n] { return n->getElse(); });
    int i = 0;
    for (int q : HS[h]) { auto *hf = flow(); auto *ty = q & 1 ? tyOf(i % 2) : nullptr; auto *x = q & 2 ? var() : nullptr; n->push_back(TryCatchFlow::Catch(hf, ty, x));
      b.v(hf, [n, i] { return nth(n->begin(), i)->getHandler(); }); if (ty) b.t(ty, [n, i] { return nth(n->begin(), i)->getType(); }); if (x) b.x(x, [n, i] { return nth(n->begin(), i)->getVar(); }); i++; }
  }
  // stages: number of arguments, null position (-1: none)
  static const std::vector<std::vector<std::pair<int, int>>> PS = {{}, {{0, -1}}, {{0, -1}, {1, 0}}, {{0, -1}, {2, 1}, {3, 0}}, {{2, -1}}, {{0, -1}, {3, 1}}};
  for (size_t p = 0; p < PS.size(); p++) {
    B b(("PipelineFlow" + std::to_string(p)).c_str()); auto *n = b.node(M->Nr<PipelineFlow>()); b.c->type = TN; int i = 0;
    for (auto &q : PS[p]) {
      std::vector<types::Type *> at(q.first, TA); auto *cal = val(M->unsafeGetFuncType("pf" + std::to_string(q.first), TB, at)); std::vector<Value *> a;
      for (int j = 0; j < q.first; j++) a.push_back(j == q.second ? nullptr : val());
      n->push_back(PipelineFlow::Stage(cal, a, false, false));
      b.v(cal, [n, i] { return nth(n->begin(), i)->getCallee(); });
      for (int j = 0; j < q.first; j++) if (a[j]) b.v(a[j], [n, i, j] { return *nth(nth(n->begin(), i)->begin(), j); });
      i++; } }
}
static void funcs() {
  for (int k = 0; k < 4; k++) { // number of parameters; parent type and body for odd k
    auto mk = [k](Func *f, B &b) {
      std::vector<types::Type *> at(k, TA); std::vector<std::string> nm; for (int i = 0; i < k; i++) nm.push_back("p" + std::to_string(i));
      auto *ft = M->unsafeGetFuncType("ff" + std::to_string(k), TB, at); f->realize(ft, nm);
      b.t(ft, [f] { return f->getType(); });
      if (k & 1) { f->setParentType(TA); b.t(TA, [f] { return f->getParentType(); }); }
      for (int i = 0; i < k; i++) b.x(*nth(f->arg_begin(), i), [f, i] { return *nth(f->arg_begin(), i); });
    };
    std::string s = std::to_string(k);
    { B b(("BodiedFunc" + s).c_str()); auto *f = b.node(M->Nr<BodiedFunc>()); mk(f, b); if (k & 1) { auto *bd = flow(); f->setBody(bd); b.v(bd, [f] { return f->getBody(); }); }
      for (int i = 0; i < k; i++) { auto *x = var(); f->push_back(x); b.x(x, [f, i] { return *nth(f->begin(), i); }); } }
    { B b(("ExternalFunc" + s).c_str()); auto *f = b.node(M->Nr<ExternalFunc>()); mk(f, b); }
    { B b(("InternalFunc" + s).c_str()); auto *f = b.node(M->Nr<InternalFunc>()); mk(f, b); }
    { B b(("LLVMFunc" + s).c_str()); auto *f = b.node(M->Nr<LLVMFunc>()); mk(f, b);
      std::vector<types::Generic> g; for (int i = 0; i < k; i++) { if (i == 1) g.emplace_back((int64_t)7); else g.emplace_back(tyOf(i % 2)); }
      f->setLLVMLiterals(g); for (int i = 0; i < k; i++) if (i != 1) b.t(tyOf(i % 2), [f, i] { return nth(f->literal_begin(), i)->getTypeValue(); }); }
  }
}
static void tys() {
  auto add = [](types::Type *t, std::vector<types::Type *> u, const char *nm) { B b(nm); b.c->node = t; for (auto *x : u) b.t(x, nullptr); };
  add(TA, {}, "prim"); add(M->getPointerType(TB), {TB}, "PointerType"); add(M->unsafeGetOptionalType(TB), {TB}, "OptionalType"); add(M->unsafeGetGeneratorType(TA), {TA}, "GeneratorType");
  add(M->unsafeGetFuncType("tyf", TB, {TA, TC, TA}), {TB, TA, TC, TA}, "FuncType"); add(M->unsafeGetFuncType("tyf0", TB, {}), {TB}, "FuncType0");
  add(M->unsafeGetUnionType({TA, TB}), {TA, TB}, "UnionType");
  { auto *t = cast<types::RecordType>(M->unsafeGetMemberedType("Rec2", false)); t->realize({TA, TB, TA}, {"a", "b", "c"}); add(t, {TA, TB, TA}, "RecordType"); }
}
// the type checker is not part of the verified unit
namespace codon { namespace ir {
types::Type *Module::getOrRealizeType(const std::string &name, std::vector<types::Generic> g) {
  if (name == "NoneType") return unsafeGetMemberedType("NoneType");
  if (name == "Ptr") return unsafeGetPointerType(g[0].getTypeValue());
  return nullptr;
}
} }
extern "C" {
void *h_nmodule() { cases = new std::vector<Case *>(); M = new Module("n"); TA = M->getIntType(); TB = M->getFloatType(); TC = M->unsafeGetMemberedType("TC", true); TN = M->getNoneType(); return M; }
void h_nmax(int n) { LMAX = n; }
void h_ncases() { constants(); instrs(); flows(); funcs(); tys(); }
int64_t h_ncount() { return cases->size(); }
Case *h_ncase(int64_t i) { return (*cases)[i]; }
const char *h_nname(Case *c) { return c->name.c_str(); }
int64_t h_nslots(Case *c, int w) { return w == 0 ? c->vals.size() : w == 1 ? c->vars.size() : c->types.size(); }
int h_nreplaceable(Case *c) { return !isA<types::Type>(c->node); }
void *h_norig(Case *c, int w, int64_t i) { return w == 0 ? (void *)c->v0[i] : w == 1 ? (void *)c->x0[i] : (void *)c->t0[i]; }
void *h_nget(Case *c, int w, int64_t i) { return w == 0 ? (void *)c->vals[i]() : w == 1 ? (void *)c->vars[i]() : (void *)c->types[i](); }
int64_t h_nused(Case *c, int w) {
  if (w == 0) { c->usedV = c->node->getUsedValues(); return c->usedV.size(); }
  if (w == 1) { c->usedX = c->node->getUsedVariables(); return c->usedX.size(); }
  c->usedT = c->node->getUsedTypes(); return c->usedT.size();
}
int64_t h_nusedc(Case *c, int w) { // the const overloads
  const Node *n = c->node;
  if (w == 0) { auto r = n->getUsedValues(); c->usedV.clear(); for (auto *x : r) c->usedV.push_back(const_cast<Value *>(x)); return r.size(); }
  auto r = n->getUsedVariables(); c->usedX.clear(); for (auto *x : r) c->usedX.push_back(const_cast<Var *>(x)); return r.size();
}
void *h_nusedi(Case *c, int w, int64_t i) { return w == 0 ? (void *)c->usedV[i] : w == 1 ? (void *)c->usedX[i] : (void *)c->usedT[i]; }
void *h_nnew(int w) { return w == 0 ? (void *)flow() : w == 1 ? (void *)var() : (void *)TC; }
int h_nreplace_id(Case *c, int w, int64_t id, void *nw) { return w == 0 ? c->node->replaceUsedValue(id, (Value *)nw) : c->node->replaceUsedVariable(id, (Var *)nw); }
int h_nreplace_ty(Case *c, types::Type *old, types::Type *nw) { return c->node->replaceUsedType(old->getName(), nw); }
int h_nreplace_old(Case *c, int w, void *old, void *nw) { return w == 0 ? c->node->replaceUsedValue((Value *)old, (Value *)nw) : w == 1 ? c->node->replaceUsedVariable((Var *)old, (Var *)nw) : c->node->replaceUsedType((types::Type *)old, (types::Type *)nw); }
int64_t h_nidof(Case *c) { return isA<Var>(c->node) ? cast<Var>(c->node)->getId() : cast<Value>(c->node)->getId(); }
void h_nsetid(int w, void *n, int64_t id) { if (w == 0) ((Value *)n)->id = id; else ((Var *)n)->id = id; }
int64_t h_ngetid(int w, void *n) { return w == 0 ? ((Value *)n)->getId() : ((Var *)n)->getId(); }
void *h_ntype(Case *c) { return cast<Value>(c->node)->getType(); }
void *h_nexptype(Case *c) { return c->type; }
types::Type *h_nty(int k) { return tyOf(k); }
void h_nalias(Case *c, Case *d) { if (isA<Var>(c->node)) cast<Var>(c->node)->replaceAll(cast<Var>(d->node)); else cast<Value>(c->node)->replaceAll(cast<Value>(d->node)); } // c is replaced by d in every observer
int h_nsametyname(types::Type *a, types::Type *b) { return a->getName() == b->getName(); }
int h_nkind(Case *c) { return isA<types::Type>(c->node) ? 2 : isA<Var>(c->node) ? 1 : 0; }
}
