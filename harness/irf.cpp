// White-box harness for the dataflow analyses (included as source, so their private classes are reachable): control-flow
// graphs of one node each over abstract children, bit sets, generated and killed definitions, and the capture analysis of
// small functions whose callee is known only by its (symbolic) capture contract.
#include "codon/cir/analyze/dataflow/cfg.cpp"
#include "codon/cir/analyze/dataflow/reaching.cpp"
#include "codon/cir/analyze/dataflow/dominator.cpp"
#include "codon/cir/analyze/dataflow/capture.cpp"
#include "codon/cir/module.h"
#include "codon/cir/dsl/nodes.h"
#include "codon/cir/dsl/codegen.h"
#include "codon/cir/transform/parallel/schedule.h"
using namespace codon::ir;
using namespace codon::ir::analyze::dataflow;
typedef codon::ir::Value V;
// an abstract child: control enters at the node itself and leaves at `out`, which is in a block of its own; nothing is known about what lies between
struct Mark : public AcceptorExtend<Mark, dsl::CustomInstr> {
  static const char NodeId; V *out; types::Type *ty;
  Mark(V *o, types::Type *t) : AcceptorExtend(), out(o), ty(t) {}
  std::unique_ptr<dsl::codegen::ValueBuilder> getBuilder() const override { return nullptr; }
  bool match(const V *v) const override { return v == this; }
  V *doClone(util::CloneVisitor &) const override { return nullptr; }
  struct B : dsl::codegen::CFBuilder { const Mark *m; void buildCFNodes(CFVisitor *v) override { auto *c = v->graph->getCurrentBlock(); c->successors_insert(v->graph->newBlock("child", true)); v->graph->getCurrentBlock()->push_back(m); v->graph->newBlock("child", true)->push_back(m->out); } };
  std::unique_ptr<dsl::codegen::CFBuilder> getCFBuilder() const override { auto b = std::make_unique<B>(); b->m = this; return b; }
  std::ostream &doFormat(std::ostream &os) const override { return os; }
  types::Type *doGetType() const override { return ty; }
};
const char Mark::NodeId = 0;
static Module *M; static types::Type *I, *OT; static types::FuncType *F0; static Func *leaf;
static int uniq;
static std::string nm(const char *p) { return std::string(p) + std::to_string(++uniq); }
static Func *ext(const char *n, types::Type *r, std::vector<types::Type *> a) { auto *f = M->Nr<ExternalFunc>(n); std::vector<std::string> an; for (size_t i = 0; i < a.size(); i++) an.push_back("a" + std::to_string(i)); f->realize(cast<types::FuncType>(M->unsafeGetFuncType(nm("t."), r, a)), an); f->setUnmangledName(n); return f; }
static BodiedFunc *fun(types::Type *r, std::vector<types::Type *> a, Flow *b) { auto n = nm("f"); auto *f = M->Nr<BodiedFunc>(n); std::vector<std::string> an; for (size_t i = 0; i < a.size(); i++) an.push_back("a" + std::to_string(i)); f->realize(cast<types::FuncType>(M->unsafeGetFuncType(nm("t."), r, a)), an); f->setUnmangledName(n); if (b) f->setBody(b); return f; }
static Var *arg(Func *f, int i) { auto it = f->arg_begin(); while (i--) ++it; return *it; }
extern "C" {
void *h_f_module() { M = new Module("test"); I = M->getIntType(); OT = M->unsafeGetMemberedType("Obj", true); cast<types::RefType>(OT)->realize({OT, I}, {"o", "x"}); leaf = ext("leaf", I, {I, I}); return M; }
V *h_mark() { return M->Nr<Mark>(M->getInt(1), I); }
V *h_out(V *m) { return cast<Mark>(m)->out; }
SeriesFlow *h_series() { return M->Nr<SeriesFlow>(); }
void h_push(SeriesFlow *s, V *v) { s->push_back(v); }
Var *h_var() { return M->Nr<Var>(I); }
V *h_if(V *c, Flow *t, Flow *f) { return M->Nr<IfFlow>(c, t, f); }
V *h_while(V *c, Flow *b) { return M->Nr<WhileFlow>(c, b); }
static std::unique_ptr<transform::parallel::OMPSched> sch(V *u, V *w) { return u ? std::make_unique<transform::parallel::OMPSched>(0, true, u, w) : nullptr; }
V *h_for(V *it, Flow *b, Var *x, V *u, V *w) { return M->Nr<ForFlow>(it, b, x, sch(u, w)); }
V *h_ifor(V *a, int64_t step, V *e, Flow *b, Var *x, V *u, V *w) { return M->Nr<ImperativeForFlow>(a, step, e, b, x, sch(u, w)); }
TryCatchFlow *h_try(Flow *b, Flow *fi, Flow *el) { return M->Nr<TryCatchFlow>(b, fi, el); }
void h_catch(TryCatchFlow *t, Flow *h, Var *x) { t->push_back(TryCatchFlow::Catch(h, I, x)); }
V *h_break(V *l) { return M->Nr<BreakInstr>(l); }
V *h_continue(V *l) { return M->Nr<ContinueInstr>(l); }
V *h_return(V *v) { return M->Nr<ReturnInstr>(v); }
V *h_assign(Var *x, V *v) { return M->Nr<AssignInstr>(x, v); }
V *h_instr(int k, V *a, V *b, V *c) {
  switch (k) {
  case 0: return M->Nr<ExtractInstr>(a, "x");
  case 1: return M->Nr<InsertInstr>(a, "x", b);
  case 2: { std::vector<V *> v; if (b) v.push_back(b); if (c) v.push_back(c); return M->Nr<CallInstr>(a, v); }
  case 3: return M->Nr<TernaryInstr>(a, b, c);
  case 4: return M->Nr<YieldInstr>(a);
  case 5: return M->Nr<AwaitInstr>(a, I, false);
  case 6: return M->Nr<ThrowInstr>(a);
  case 7: return M->Nr<FlowInstr>(cast<Flow>(a), b);
  case 8: return M->Nr<VarValue>(M->Nr<Var>(I));
  case 9: return M->Nr<PointerValue>(M->Nr<Var>(I));
  case 10: return M->getInt(7);
  case 11: return M->Nr<YieldInInstr>(I);
  case 12: return M->Nr<TypePropertyInstr>(I, TypePropertyInstr::Property::SIZEOF);
  case 13: return M->getBool(true);
  }
  return nullptr;
}
// stages g1..gn of `leaf`: bit i of gen: stage i yields values; the first stage is the mark, the others take the previous value and a mark
V *h_pipe(int n, int gen, V *a, V *b, V *c) {
  std::vector<PipelineFlow::Stage> st; V *m[3] = {a, b, c};
  auto *gt = M->unsafeGetGeneratorType(I);
  for (int i = 0; i < n; i++) {
    if (i == 0) { if (gen & 1) { m[0] = M->Nr<Mark>(cast<Mark>(a)->out, gt); } st.emplace_back(m[0], std::vector<V *>{}, gen & 1, false); }
    else st.emplace_back(M->Nr<VarValue>((gen >> i & 1) ? ext("gleaf", gt, {I, I}) : leaf), std::vector<V *>{nullptr, m[i]}, gen >> i & 1, false);
  }
  return M->Nr<PipelineFlow>(st);
}
V *h_pipe_head(V *p) { return cast<PipelineFlow>(p)->begin()->getCallee(); }
static std::vector<CFBlock *> *bl; static std::vector<std::vector<const V *>> *vl;
CFGraph *h_cfg(Flow *body, int nargs) {
  auto *f = fun(I, std::vector<types::Type *>(nargs, I), body); auto *g = buildCFGraph(f).release();
  bl = new std::vector<CFBlock *>(); vl = new std::vector<std::vector<const V *>>();
  for (auto *b : *g) { bl->push_back(b); vl->emplace_back(); for (auto *v : *b) vl->back().push_back(v); }
  return g;
}
int h_nb() { return bl->size(); }
int h_nv(int i) { return (*vl)[i].size(); }
const V *h_val(int i, int j) { return (*vl)[i][j]; }
bool h_succ(int i, int j) { for (auto it = (*bl)[i]->successors_begin(); it != (*bl)[i]->successors_end(); ++it) if (*it == (*bl)[j]) return true; return false; }
bool h_pred(int i, int j) { for (auto it = (*bl)[j]->predecessors_begin(); it != (*bl)[j]->predecessors_end(); ++it) if (*it == (*bl)[i]) return true; return false; }
int h_loc(CFGraph *g, V *v) { auto *b = g->getBlock(v); for (size_t i = 0; i < bl->size(); i++) if ((*bl)[i] == b) return i; return -1; }
int h_entry(CFGraph *g) { for (size_t i = 0; i < bl->size(); i++) if ((*bl)[i] == g->getEntryBlock()) return i; return -1; }
int h_sk(const V *v) { auto *s = cast<SyntheticAssignInstr>(v); return s ? (int)s->getKind() : -1; }
const Var *h_slhs(const V *v) { return cast<SyntheticAssignInstr>(v)->getLhs(); }
const V *h_sarg(const V *v) { return cast<SyntheticAssignInstr>(v)->getArg(); }
int64_t h_sdiff(const V *v) { return cast<SyntheticAssignInstr>(v)->getDiff(); }
Var *h_farg(CFGraph *g, int i) { return arg(const_cast<BodiedFunc *>(g->getFunc()), i); }
// --- bit sets ---
BitSet *h_bs(unsigned n) { return new BitSet(n); }
uint64_t h_bs_word(BitSet *b, int i) { return b->words[i]; }
void h_bs_put(BitSet *b, int i, uint64_t w) { b->words[i] = w; }
unsigned h_bs_words(BitSet *b) { return b->words.size(); }
bool h_bs_op(int k, BitSet *a, BitSet *b, unsigned n) {
  switch (k) { case 0: a->update(*b, n); break; case 1: a->subtract(*b, n); break; case 2: a->overwrite(*b, n); break; case 3: a->clear(n); break; case 4: { auto c = b->copy(n); a->overwrite(c, n); break; } case 5: return a->equals(*b, n); case 6: a->set(n); break; case 7: return a->get(n); case 8: a->setAll(n); break; }
  return false;
}
// --- generated and killed definitions ---
static V *defn; static Var *defv;
V *h_def(int k, int64_t diff) {
  defv = M->Nr<Var>(I); auto *g = new CFGraph(fun(I, {}, M->Nr<SeriesFlow>())); auto *e = M->getInt(3);
  switch (k) {
  case 0: defn = M->Nr<AssignInstr>(defv, e); break;
  case 1: defn = g->N<SyntheticAssignInstr>(e, defv); break;
  case 2: defn = g->N<SyntheticAssignInstr>(e, defv, e, SyntheticAssignInstr::KNOWN); break;
  case 3: defn = g->N<SyntheticAssignInstr>(e, defv, e, SyntheticAssignInstr::NEXT_VALUE); break;
  case 4: defn = g->N<SyntheticAssignInstr>(e, defv, diff); break;
  case 5: defn = M->Nr<VarValue>(defv); break;
  case 6: defn = M->Nr<PointerValue>(defv); break;
  case 7: defn = M->Nr<CallInstr>(M->Nr<VarValue>(defv), std::vector<V *>{}); break;
  case 8: defn = M->Nr<InsertInstr>(M->Nr<VarValue>(defv), "x", e); break;
  case 9: defn = g->N<SyntheticPhiInstr>(e); break;
  }
  return defn;
}
bool h_kills() { return getKilled(defn) == defv->getId(); }
bool h_killsany() { return getKilled(defn) != -1; }
bool h_gens() { return getGenerated(defn).first == defv->getId(); }
bool h_gensany() { return getGenerated(defn).first != -1; }
bool h_genok() { return getGenerated(defn).second.assignment == defn; }
bool h_genknown() { return getGenerated(defn).second.known(); }
bool h_genval() { auto *a = cast<AssignInstr>(defn); auto *s = cast<SyntheticAssignInstr>(defn); return getGenerated(defn).second.assignee == (a ? a->getRhs() : s->getArg()); }
// --- captures ---
static CFResult *cfr; static RDResult *rdr; static DominatorResult *dmr;
static void facts(BodiedFunc *f) {
  auto g = buildCFGraph(f); auto rd = std::make_unique<RDInspector>(g.get()); rd->analyze(); auto d = std::make_unique<DominatorInspector>(g.get()); d->analyze();
  rdr->results[f->getId()] = std::move(rd); dmr->results[f->getId()] = std::move(d); cfr->graphs[f->getId()] = std::move(g);
}
struct CCase { BodiedFunc *f; }; static std::vector<BodiedFunc *> *cases; static Func *callee, *cal1; static Var *glob;
static V *vv(Var *v) { return M->Nr<VarValue>(v); }
static V *call(Func *f, std::vector<V *> a) { return M->Nr<CallInstr>(vv(f), a); }
int h_c_build() {
  cfr = new CFResult(); rdr = new RDResult(cfr); dmr = new DominatorResult(cfr); cases = new std::vector<BodiedFunc *>();
  // the callees are functions with bodies, but only their recorded contract is used
  callee = fun(OT, {OT, OT}, M->Nr<SeriesFlow>()); cal1 = fun(OT, {OT}, M->Nr<SeriesFlow>()); glob = M->Nr<Var>(OT, true);
  for (int k = 0; k < 22; k++) {
    auto *b = M->Nr<SeriesFlow>(); auto *f = fun(OT, {OT, OT, OT}, b); auto *p = arg(f, 0), *q = arg(f, 1), *r = arg(f, 2); auto *x = M->Nr<Var>(OT), *y = M->Nr<Var>(OT); f->push_back(x); f->push_back(y);
    auto c = [&]() { return call(callee, {vv(p), vv(q)}); }; auto ret = [&](V *v) { b->push_back(M->Nr<ReturnInstr>(v)); }; auto as = [&](Var *z, V *v) { b->push_back(M->Nr<AssignInstr>(z, v)); };
    auto *fresh = call(ext("fresh", OT, {}), {});
    switch (k) {
    case 0: ret(c()); break;
    case 1: b->push_back(c()); ret(vv(q)); break;
    case 2: b->push_back(c()); as(glob, vv(q)); ret(fresh); break;
    case 3: as(x, c()); b->push_back(M->Nr<InsertInstr>(vv(x), "o", vv(r))); ret(fresh); break;
    case 4: b->push_back(M->Nr<ThrowInstr>(c())); break;
    case 5: b->push_back(M->Nr<YieldInstr>(c())); break;
    case 6: as(x, M->Nr<TernaryInstr>(M->getBool(true), fresh, c())); ret(vv(x)); break;
    case 7: as(x, M->Nr<TernaryInstr>(M->getBool(true), c(), fresh)); ret(vv(x)); break;
    case 8: { auto *s = M->Nr<SeriesFlow>(); s->push_back(M->Nr<ReturnInstr>(vv(x))); b->push_back(M->Nr<ForFlow>(c(), s, x)); break; }
    case 9: { auto *s = M->Nr<SeriesFlow>(); as(x, M->Nr<FlowInstr>(s, c())); ret(vv(x)); break; }
    case 10: as(x, M->Nr<ExtractInstr>(c(), "o")); ret(vv(x)); break;
    case 11: as(x, vv(q)); b->push_back(call(callee, {vv(p), vv(x)})); ret(vv(q)); break;
    case 12: b->push_back(call(callee, {vv(p), vv(q)})); as(x, vv(q)); ret(vv(x)); break;
    case 13: as(x, c()); as(y, call(cal1, {vv(x)})); ret(vv(y)); break;
    case 14: as(x, c()); as(glob, vv(x)); ret(fresh); break;
    case 15: { auto *s = M->Nr<SeriesFlow>(); s->push_back(M->Nr<AssignInstr>(x, c())); as(x, fresh); b->push_back(M->Nr<IfFlow>(M->getBool(true), s)); ret(vv(x)); break; }
    case 16: { auto *s = M->Nr<SeriesFlow>(); as(x, vv(p)); as(y, fresh); s->push_back(M->Nr<AssignInstr>(y, call(cal1, {vv(x)}))); s->push_back(M->Nr<AssignInstr>(x, vv(y))); b->push_back(M->Nr<WhileFlow>(M->getBool(true), s)); ret(vv(y)); break; }
    case 17: as(x, c()); as(x, fresh); ret(vv(x)); break;
    case 18: b->push_back(M->Nr<InsertInstr>(c(), "o", vv(r))); ret(fresh); break;
    case 19: { auto *fv = M->Nr<Var>(callee->getType()); f->push_back(fv); b->push_back(M->Nr<AssignInstr>(fv, vv(callee))); ret(M->Nr<CallInstr>(vv(fv), std::vector<V *>{vv(p), vv(q)})); break; }
    case 20: b->push_back(M->Nr<AwaitInstr>(c(), OT, false)); break;
    case 21: as(x, vv(p)); ret(call(callee, {vv(x), vv(q)})); break;
    }
    cases->push_back(f); facts(f);
  }
  return cases->size();
}
static CaptureContext *cc; static std::vector<CaptureInfo> *ans;
void h_c_new() { cc = new CaptureContext(rdr, dmr); cc->results[callee->getId()] = {CaptureInfo::nothing(), CaptureInfo::nothing()}; cc->results[cal1->getId()] = {CaptureInfo::nothing()}; }
void h_c_set(int which, int i, bool ret, bool ex, bool mod) { auto &c = cc->results[(which ? cal1 : callee)->getId()][i]; c.returnCaptures = ret; c.externCaptures = ex; c.modified = mod; }
void h_c_arg(int which, int i, int j) { cc->results[(which ? cal1 : callee)->getId()][i].argCaptures.push_back(j); }
void h_c_run(int k) { ans = new std::vector<CaptureInfo>(cc->get((*cases)[k])); }
bool h_c_get(int i, int what) { auto &c = (*ans)[i]; return what == 0 ? c.returnCaptures : what == 1 ? c.externCaptures : c.modified; }
bool h_c_argcap(int i, int j) { for (auto x : (*ans)[i].argCaptures) if ((int)x == j) return true; return false; }
int h_c_n() { return ans->size(); }
// functions without a body, attribute a: -1 none, 0 pure, 1 no side effect, 2 no capture, 3 derives + no capture, 4 self captures, 5 self captures + derives
void h_c_ext(int kind, int a) {
  Func *f = kind == 0 ? ext("e", OT, {OT, I, OT}) : nullptr;
  if (kind == 1) { auto *l = M->Nr<LLVMFunc>("l"); l->realize(cast<types::FuncType>(M->unsafeGetFuncType(nm("t."), OT, {OT, I, OT})), {"a", "b", "c"}); f = l; }
  if (kind == 2) { auto *l = M->Nr<InternalFunc>("i"); l->realize(cast<types::FuncType>(M->unsafeGetFuncType(nm("t."), OT, {OT, I, OT})), {"a", "b", "c"}); l->setUnmangledName("other"); f = l; }
  if (kind == 3) { auto *t = M->unsafeGetMemberedType(nm("Tup"), false); cast<types::RecordType>(t)->realize({OT, I, OT}, {"a", "b", "c"}); auto *l = M->Nr<InternalFunc>("n"); l->realize(cast<types::FuncType>(M->unsafeGetFuncType(nm("t."), t, {OT, I, OT})), {"a", "b", "c"}); l->setUnmangledName("__new__"); f = l; }
  std::unordered_map<std::string, std::string> m;
  if (a == 0) m[util::PURE_ATTR] = ""; if (a == 1) m[util::NO_SIDE_EFFECT_ATTR] = ""; if (a == 2 || a == 3) m[util::NO_CAPTURE_ATTR] = ""; if (a == 4 || a == 5) m[util::SELF_CAPTURES_ATTR] = ""; if (a == 3 || a == 5) m[util::DERIVES_ATTR] = "";
  if (a >= 0) f->setAttribute(std::make_unique<KeyValueAttribute>(m));
  ans = new std::vector<CaptureInfo>(cc->get(f));
}
}
