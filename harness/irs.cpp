// White-box harness: the real side-effect analyser, dead-code pass and global demotion (included as source, so their private
// classes are reachable), one instance of every node kind with the operands whose statuses are given.
#include "codon/cir/analyze/module/side_effect.cpp"
#include "codon/cir/transform/cleanup/dead_code.cpp"
#include "codon/cir/transform/cleanup/global_demote.cpp"
#include "codon/cir/module.h"
#include "codon/cir/transform/parallel/schedule.h"
using namespace codon::ir;
using namespace codon::ir::analyze::module;
using Status = util::SideEffectStatus;
struct SCase { std::string name; Node *node; std::vector<Node *> kids, callees; Var *var = nullptr; int own = 0, fown = 0; };
static Module *M; static types::Type *T; static types::Type *FT; static std::vector<SCase *> cases; static BodiedFunc *encl;
static VarUseAnalyzer *vua; static codon::ir::analyze::dataflow::CaptureResult *cr; static SideEfectAnalyzer *sea;
static Value *val() { return M->Nr<VarValue>(M->Nr<Var>(T)); }
static SeriesFlow *flow() { return M->Nr<SeriesFlow>(); }
static Func *ext(const char *n) { auto *f = M->Nr<ExternalFunc>(n); f->realize(cast<types::FuncType>(FT), {}); f->setUnmangledName(n); return f; }
static BodiedFunc *bodied(const char *n, Flow *b) { auto *f = M->Nr<BodiedFunc>(n); f->realize(cast<types::FuncType>(FT), {}); f->setUnmangledName(n); f->setBody(b); return f; }
static SCase *mk(const char *n, Node *x, std::vector<Node *> k = {}) { auto *c = new SCase(); c->name = n; c->node = x; c->kids = std::move(k); cases.push_back(c); return c; }
static transform::parallel::OMPSched *sched(Value *a, Value *b) { return new transform::parallel::OMPSched(0, true, a, b); }
extern "C" {
void *h_s_module() {
  M = new Module("test"); T = M->getIntType(); FT = M->unsafeGetFuncType("fn", T, {}); encl = bodied("encl", flow());
  for (int n = 0; n < 5; n++) { auto *s = flow(); auto *c = mk("SeriesFlow", s); for (int i = 0; i < n; i++) { auto *v = val(); s->push_back(v); c->kids.push_back(v); } c->name += std::to_string(n); }
  { auto *a = val(); auto *t = flow(), *f = flow(); mk("IfFlow", M->Nr<IfFlow>(a, t, f), {a, t, f}); }
  { auto *a = val(); auto *t = flow(); mk("IfFlow without else", M->Nr<IfFlow>(a, t), {a, t}); }
  { auto *a = val(); auto *t = flow(); mk("WhileFlow", M->Nr<WhileFlow>(a, t), {a, t}); }
  for (int p = 0; p < 2; p++) {
    auto *a = val(); auto *t = flow(); auto *x = M->Nr<Var>(T);
    if (!p) mk("ForFlow", M->Nr<ForFlow>(a, t, x), {a, t})->var = x;
    else { auto *u = val(), *w = val(); mk("ForFlow with schedule", M->Nr<ForFlow>(a, t, x, std::unique_ptr<transform::parallel::OMPSched>(sched(u, w))), {a, t, u, w})->var = x; }
  }
  for (int p = 0; p < 2; p++) {
    auto *a = val(), *b = val(); auto *t = flow(); auto *x = M->Nr<Var>(T);
    if (!p) mk("ImperativeForFlow", M->Nr<ImperativeForFlow>(a, 1, b, t, x), {a, b, t})->var = x;
    else { auto *u = val(), *w = val(); mk("ImperativeForFlow with schedule", M->Nr<ImperativeForFlow>(a, -2, b, t, x, std::unique_ptr<transform::parallel::OMPSched>(sched(u, w))), {a, b, t, u, w})->var = x; }
  }
  for (int e = 0; e < 2; e++) for (int f = 0; f < 2; f++) for (int k = 0; k < 3; k++) {
    auto *b = flow(); Flow *el = e ? flow() : nullptr, *fi = f ? flow() : nullptr; auto *n = M->Nr<TryCatchFlow>(b, fi, el);
    auto *c = mk("TryCatchFlow", n, {b}); if (el) c->kids.push_back(el); if (fi) c->kids.push_back(fi);
    for (int i = 0; i < k; i++) { auto *h = flow(); auto *x = i == 0 ? M->Nr<Var>(T) : nullptr; if (x) c->var = x; n->push_back(TryCatchFlow::Catch(h, T, x)); c->kids.push_back(h); }
    c->name += std::to_string(k) + (e ? " else" : "") + (f ? " finally" : "");
  }
  { auto *f = ext("pf"), *g = ext("pg"); auto *a = val(), *b = val();
    std::vector<PipelineFlow::Stage> st; st.emplace_back(M->Nr<VarValue>(f), std::vector<Value *>{a}, false, false); st.emplace_back(M->Nr<VarValue>(g), std::vector<Value *>{nullptr, b}, true, false);
    auto *c = mk("PipelineFlow", M->Nr<PipelineFlow>(st), {a, b}); c->callees = {f, g}; }
  { auto *f = M->Nr<Var>(FT); auto *a = val(); auto *cal = M->Nr<VarValue>(f); std::vector<PipelineFlow::Stage> st; st.emplace_back(cal, std::vector<Value *>{a}, false, false);
    auto *c = mk("PipelineFlow of an unknown function", M->Nr<PipelineFlow>(st), {cal, a}); c->own = c->fown = 1; }
  { auto *r = val(); auto *x = M->Nr<Var>(T); mk("AssignInstr", M->Nr<AssignInstr>(x, r), {r})->var = x; }
  { auto *r = val(); mk("ExtractInstr", M->Nr<ExtractInstr>(r, "x"), {r}); }
  for (int k = 0; k < 4; k++) {
    auto *f = ext("cf"); auto *cal = M->Nr<VarValue>(f); std::vector<Value *> a; for (int i = 0; i < k; i++) a.push_back(val());
    auto *c = mk("CallInstr", M->Nr<CallInstr>(cal, a), {}); for (auto *x : a) c->kids.push_back(x); c->callees = {f}; c->name += std::to_string(k); }
  { auto *cal = M->Nr<VarValue>(M->Nr<Var>(FT)); auto *a = val(); auto *c = mk("CallInstr of an unknown function", M->Nr<CallInstr>(cal, std::vector<Value *>{a}), {cal, a}); c->own = c->fown = 1; }
  { auto *a = val(), *b = val(), *d = val(); mk("TernaryInstr", M->Nr<TernaryInstr>(a, b, d), {a, b, d}); }
  { mk("BreakInstr", M->Nr<BreakInstr>())->own = 1; mk("ContinueInstr", M->Nr<ContinueInstr>())->own = 1; }
  { auto *a = val(); mk("ReturnInstr", M->Nr<ReturnInstr>(a), {a})->own = 1; mk("ReturnInstr without value", M->Nr<ReturnInstr>())->own = 1; }
  { auto *a = val(); mk("YieldInstr", M->Nr<YieldInstr>(a, false), {a})->own = 1; mk("YieldInstr without value", M->Nr<YieldInstr>())->own = 1; mk("YieldInInstr", M->Nr<YieldInInstr>(T))->own = 1; }
  { auto *a = val(); mk("AwaitInstr", M->Nr<AwaitInstr>(a, T, false), {a})->own = 1; }
  { auto *a = val(); auto *c = mk("ThrowInstr", M->Nr<ThrowInstr>(a), {a}); c->own = c->fown = 1; c = mk("ThrowInstr without value", M->Nr<ThrowInstr>(nullptr)); c->own = c->fown = 1; }
  { auto *f = flow(); auto *a = val(); mk("FlowInstr", M->Nr<FlowInstr>(f, a), {f, a}); }
  { // functions: status follows the body, calls in progress count as unknown
    auto *g = ext("leaf"); auto *b = flow(); b->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(g), std::vector<Value *>{}));
    mk("BodiedFunc", bodied("f1", b))->callees = {g}; }
  return M;
}
int h_s_count() { return cases.size(); }
SCase *h_s_case(int i) { return cases[i]; }
const char *h_s_name(SCase *c) { return c->name.c_str(); }
int h_s_nkids(SCase *c) { return c->kids.size(); }
int h_s_ncallees(SCase *c) { return c->callees.size(); }
Var *h_s_var(SCase *c) { return c->var; }
int h_s_own(SCase *c) { return c->own; }
int h_s_fown(SCase *c) { return c->fown; }
bool h_s_isfunc(SCase *c) { return isA<Func>(c->node); }
Node *h_s_kid(SCase *c, int i) { return c->kids[i]; }
Node *h_s_callee(SCase *c, int i) { return c->callees[i]; }
Node *h_s_node(SCase *c) { return c->node; }
static codon::ir::id_t idOf(Node *n) { if (auto *v = cast<Value>(n)) return v->getId(); return cast<Var>(n)->getId(); }
void h_s_begin(bool gse, int fs) {
  vua = new VarUseAnalyzer(); cr = new codon::ir::analyze::dataflow::CaptureResult(); sea = new SideEfectAnalyzer(*vua, cr, gse);
  sea->funcStack.push_back(encl); sea->funcStatus = (Status)fs;
}
void h_s_set(Node *n, int st) { sea->result[idOf(n)] = (Status)st; }
void h_s_counts(Var *v, long uses, long assigns) { if (uses >= 0) vua->varCounts[v->getId()] = uses; if (assigns >= 0) vua->varAssignCounts[v->getId()] = assigns; }
void h_s_countsym(Var *v, long uses, long assigns) { vua->varCounts[v->getId()] = uses; vua->varAssignCounts[v->getId()] = assigns; }
void h_s_flags(Var *v, bool g, bool e) { v->global = g; v->external = e; }
void h_s_visit(Node *n) { n->accept(*sea); }
int h_s_status(Node *n) { auto it = sea->result.find(idOf(n)); return it == sea->result.end() ? -1 : (int)it->second; }
int h_s_fs() { return sea->funcStatus; }
// insert: nfunc parameters of the enclosing function with the given capture facts
Node *h_s_insert(int n) {
  std::vector<codon::ir::analyze::dataflow::CaptureInfo> v; for (int i = 0; i < n; i++) v.push_back({});
  cr->results[encl->getId()] = v; auto *l = val(), *r = val(); h_s_set(l, 0); h_s_set(r, 0);
  return M->Nr<InsertInstr>(l, "x", r);
}
void h_s_capture(int i, bool arg, bool ret, bool ext, bool mod) { auto &c = cr->results[encl->getId()][i]; if (arg) c.argCaptures.push_back(0); c.returnCaptures = ret; c.externCaptures = ext; c.modified = mod; }
void h_s_capset(void *p, bool arg, bool ret, bool ext, bool mod) { auto *c = new (p) codon::ir::analyze::dataflow::CaptureInfo(); if (arg) c->argCaptures.push_back(0); c->returnCaptures = ret; c->externCaptures = ext; c->modified = mod; }
// functions with attributes; kind 0 bodied 1 external 2 llvm 3 internal
Node *h_s_func(int kind, int attr, int leafstatus) {
  Func *f;
  if (kind == 0) { auto *g = ext("leaf2"); h_s_set(g, leafstatus); auto *b = flow(); b->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(g), std::vector<Value *>{})); f = bodied("f2", b); }
  else if (kind == 1) f = ext("f3");
  else if (kind == 2) { auto *l = M->Nr<LLVMFunc>("f4"); l->realize(cast<types::FuncType>(FT), {}); f = l; }
  else { auto *l = M->Nr<InternalFunc>("f5"); l->realize(cast<types::FuncType>(FT), {}); f = l; }
  static const std::string *nm[] = {&util::PURE_ATTR, &util::NO_SIDE_EFFECT_ATTR, &util::NO_CAPTURE_ATTR, &util::NON_PURE_ATTR};
  if (attr >= 0) { std::unordered_map<std::string, std::string> m; m[*nm[attr]] = ""; f->setAttribute(std::make_unique<KeyValueAttribute>(m)); }
  return f;
}
// f calls g then leaf, g calls f
Node *h_s_mutual(int which, int leafstatus) {
  auto *leaf = ext("leaf3"); h_s_set(leaf, leafstatus); auto *fb = flow(), *gb = flow(); auto *f = bodied("mf", fb), *g = bodied("mg", gb);
  gb->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(f), std::vector<Value *>{}));
  fb->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(g), std::vector<Value *>{})); fb->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(leaf), std::vector<Value *>{}));
  h_s_visit(f); return which ? (Node *)g : f;
}
bool h_s_has(bool present, int st) { std::unordered_map<codon::ir::id_t, Status> m; auto *v = val(); if (present) m[v->getId()] = (Status)st; m[val()->getId()] = Status::PURE; SideEffectResult r(m); return r.hasSideEffect(v); }
// use counting: k = 0..4 reads of the variable beside `assigns` assignments
Var *h_s_uses(int reads, int assigns, int how) {
  auto *x = M->Nr<Var>(T); auto *b = flow();
  for (int i = 0; i < assigns; i++) b->push_back(M->Nr<AssignInstr>(x, val()));
  for (int i = 0; i < reads; i++) {
    Value *u = how == 1 ? (Value *)M->Nr<PointerValue>(x) : M->Nr<VarValue>(x);
    if (how == 2) { b->push_back(M->Nr<AssignInstr>(x, u)); continue; }
    if (how == 3) { b->push_back(M->Nr<ForFlow>(val(), flow(), x)); continue; }
    if (how == 4) { b->push_back(M->Nr<ImperativeForFlow>(val(), 1, val(), flow(), x)); continue; }
    if (how == 5) { auto *t = M->Nr<TryCatchFlow>(flow()); t->push_back(TryCatchFlow::Catch(flow(), T, x)); b->push_back(t); continue; }
    if (how == 6) { b->push_back(M->Nr<IfFlow>(u, flow())); continue; }
    if (how == 7) { b->push_back(M->Nr<ReturnInstr>(u)); continue; }
    b->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(ext("use")), std::vector<Value *>{u}));
  }
  auto *f = bodied("uses", b); f->accept(*vua); return x;
}
long h_s_usecount(Var *v) { auto it = vua->varCounts.find(v->getId()); return it == vua->varCounts.end() ? 0 : it->second; }
long h_s_asgcount(Var *v) { auto it = vua->varAssignCounts.find(v->getId()); return it == vua->varAssignCounts.end() ? 0 : it->second; }
// --- dead code ---
void h_seresult(codon::ir::Value *v, int st); void h_seadd(codon::ir::Value *v, int st);
static transform::cleanup::DeadCodeCleanupPass *dce;
void h_d_new() { dce = new transform::cleanup::DeadCodeCleanupPass("k"); dce->numReplacements = 0; }
SeriesFlow *h_d_series(int n) { auto *s = flow(); for (int i = 0; i < n; i++) s->push_back(val()); return s; }
Value *h_d_nth(SeriesFlow *s, int i) { auto it = s->begin(); while (i-- && it != s->end()) ++it; return it == s->end() ? nullptr : *it; }
int h_d_len(SeriesFlow *s) { int n = 0; for (auto *x : *s) { (void)x; n++; } return n; }
void h_d_hseries(SeriesFlow *s) { dce->handle(s); }
static Flow *marked(int64_t m) { auto *s = flow(); s->push_back(M->getInt(m)); return s; }
Value *h_d_if(bool c, bool hasElse) { auto *n = M->Nr<IfFlow>(M->getBool(c), marked(111), hasElse ? marked(222) : nullptr); dce->handle(n); return n; }
Value *h_d_ifvar(int k) { Value *n; if (k == 0) { auto *x = M->Nr<IfFlow>(val(), marked(111), marked(222)); dce->handle(x); n = x; } else if (k == 1) { auto *x = M->Nr<WhileFlow>(val(), marked(111)); dce->handle(x); n = x; } else if (k == 2) { auto *x = M->Nr<TernaryInstr>(val(), M->getInt(111), M->getInt(222)); dce->handle(x); n = x; } else if (k == 3) { auto *x = M->Nr<ImperativeForFlow>(val(), 1, M->getInt(-5), marked(111), M->Nr<Var>(T)); dce->handle(x); n = x; } else { auto *x = M->Nr<ImperativeForFlow>(M->getInt(5), 1, val(), marked(111), M->Nr<Var>(T)); dce->handle(x); n = x; } return n; }
Value *h_d_while(bool c) { auto *n = M->Nr<WhileFlow>(M->getBool(c), marked(111)); dce->handle(n); return n; }
Value *h_d_ternary(bool c) { auto *n = M->Nr<TernaryInstr>(M->getBool(c), M->getInt(111), M->getInt(222)); dce->handle(n); return n; }
Value *h_d_for(int64_t a, int64_t step, int64_t b) { auto *n = M->Nr<ImperativeForFlow>(M->getInt(a), 1, M->getInt(b), marked(111), M->Nr<Var>(T)); n->step = step; dce->handle(n); return n; }
// -1 not replaced; 0 empty block; otherwise the mark
int64_t h_d_result(Node *n) {
  auto *a = n->getActual(); if (a == n) return -1;
  if (auto *s = cast<SeriesFlow>(a)) { if (s->begin() == s->end()) return 0; auto *k = cast<IntConst>(*s->begin()); return k ? k->getVal() : -2; }
  auto *k = cast<IntConst>(a); return k ? k->getVal() : -3;
}
// --- global demotion --- use pattern bit0 main, bit1 f, bit2 g, bit3: twice in main
static transform::cleanup::GlobalDemotionPass *gd; static BodiedFunc *gf[3]; static std::vector<Var *> *gl;
static Module *DM;
void *h_g_build() {
  DM = new Module("demote"); types::Type *I = DM->getIntType(); auto *ft = cast<types::FuncType>(DM->unsafeGetFuncType("fn2", I, {}));
  gf[0] = cast<BodiedFunc>(DM->getMainFunc());
  for (int i = 1; i < 3; i++) { gf[i] = DM->Nr<BodiedFunc>(i == 1 ? "df" : "dg"); gf[i]->realize(ft, {}); }
  gl = new std::vector<Var *>(); std::vector<SeriesFlow *> b; for (int i = 0; i < 3; i++) { b.push_back(DM->Nr<SeriesFlow>()); gf[i]->setBody(b[i]); }
  for (int p = 0; p < 16; p++) {
    auto *v = DM->Nr<Var>(I, true, false, false, "g" + std::to_string(p)); gl->push_back(v);
    for (int i = 0; i < 3; i++) if (p >> i & 1) { if ((p + i) & 1) b[i]->push_back(DM->Nr<AssignInstr>(v, DM->getInt(p))); else b[i]->push_back(DM->Nr<VarValue>(v)); }
    if (p >> 3) b[0]->push_back(DM->Nr<PointerValue>(v));
  }
  auto *av = DM->getArgVar(); gl->push_back(av); b[0]->push_back(DM->Nr<VarValue>(av));
  return DM;
}
int h_g_n() { return gl->size(); }
Var *h_g_var(int i) { return (*gl)[i]; }
void h_g_flags(Var *v, bool ext, bool tl) { v->external = ext; v->tls = tl; }
bool h_g_global(Var *v) { return v->isGlobal(); }
int h_g_owner(Var *v) { int r = 0; for (int i = 0; i < 3; i++) for (auto *x : *gf[i]) if (x == v) r += 1 << (4 * i); return r; }
void h_g_run() { gd = new transform::cleanup::GlobalDemotionPass(); gd->run(DM); }
}
