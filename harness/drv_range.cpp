// Emits LLVM IR for loops over range(...), lowered by the real pass and translated by the real LLVM visitor.
// usage: drv_range <out.ll> <steps...>; functions: r1(stop), r2(start, stop), r3_<k>(start, stop) with the k-th step, rv(start, stop, step) not lowered
#include <iostream>
#include <string>
#include <vector>
#include "codon/cir/cir.h"
#include "codon/cir/llvm/llvisitor.h"
#include "codon/cir/transform/lowering/imperative.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/util/irtools.h"
#include "codon/parser/cache.h"
#include "codon/parser/common.h"
using namespace codon::ir;
static types::Type *rangeTy;
namespace codon { namespace ir {
Func *Module::getOrRealizeMethod(types::Type *, const std::string &, std::vector<types::Type *>, std::vector<types::Generic>) { return nullptr; }
types::Type *Module::getOrRealizeType(const std::string &n, std::vector<types::Generic>) {
  if (n == codon::ast::getMangledClass("std.internal.types.range", "range")) return rangeTy;
  return getType(n);
}
} }
static Module *M;
static Value *vv(Var *v) { return M->Nr<VarValue>(v); }
static Func *ext(const std::string &nm, types::Type *ret, std::vector<types::Type *> at, const std::string &un, types::Type *parent) {
  auto *f = M->Nr<ExternalFunc>(nm); std::vector<std::string> names; for (size_t i = 0; i < at.size(); i++) names.push_back("a" + std::to_string(i));
  f->realize(M->unsafeGetFuncType("fn." + nm, ret, at), names); f->setUnmangledName(un); f->setParentType(parent); f->setGlobal(true); return f;
}
int main(int argc, char **argv) {
  M = new Module("test"); auto *I = M->getIntType();
  rangeTy = M->unsafeGetMemberedType(codon::ast::getMangledClass("std.internal.types.range", "range"), false);
  auto *R = cast<types::RecordType>(rangeTy); R->realize({I, I, I}, {"start", "stop", "step"});
  auto *G = M->unsafeGetGeneratorType(I);
  auto *n1 = ext("new1", R, {I}, "__new__", R), *n2 = ext("new2", R, {I, I}, "__new__", R), *n3 = ext("new3", R, {I, I, I}, "__new__", R), *it = ext("iter", G, {R}, "__iter__", R);
  auto *emit = ext("emit", M->getVoidType(), {I}, "emit", nullptr), *skip = ext("skip", M->getBoolType(), {I}, "skip", nullptr), *stop = ext("stop", M->getBoolType(), {I}, "stop", nullptr);
  auto *probe = ext("probe", I, {I}, "probe", nullptr);
  int lowered = 0, kept = 0;
  auto make = [&](const std::string &nm, int args, int64_t step, int kind) {
    auto *f = M->Nr<BodiedFunc>(nm); int np = kind == 3 ? 3 : args == 1 ? 1 : 2; std::vector<types::Type *> at(np, I); std::vector<std::string> names; for (int i = 0; i < np; i++) names.push_back("p" + std::to_string(i));
    f->realize(M->unsafeGetFuncType("ty." + nm, M->getVoidType(), at), names); f->setUnmangledName(nm); f->setGlobal(true); f->setJIT(); 
    std::vector<Var *> ps(f->arg_begin(), f->arg_end());
    auto *x = M->Nr<Var>(I, false, false, false, "x"); f->push_back(x); auto *body = M->Nr<SeriesFlow>();
    if (kind == 1) { auto *s1 = M->Nr<SeriesFlow>(); s1->push_back(M->Nr<ContinueInstr>()); body->push_back(M->Nr<IfFlow>(util::call(skip, {vv(x)}), s1)); auto *s2 = M->Nr<SeriesFlow>(); s2->push_back(M->Nr<BreakInstr>()); body->push_back(M->Nr<IfFlow>(util::call(stop, {vv(x)}), s2)); }
    body->push_back(util::call(emit, {vv(x)}));
    if (kind == 2) for (auto *p : ps) body->push_back(M->Nr<AssignInstr>(p, M->getInt(3)));      // the body assigns the loop variable and the bounds
    if (kind == 2) body->push_back(M->Nr<AssignInstr>(x, M->getInt(-77)));
    auto P = [&](int i) { return kind == 1 ? (Value *)util::call(probe, {vv(ps[i])}) : vv(ps[i]); };
    Value *c = kind == 3 ? util::call(n3, {P(0), P(1), P(2)}) : args == 1 ? util::call(n1, {P(0)}) : args == 2 ? util::call(n2, {P(0), P(1)}) : util::call(n3, {P(0), P(1), M->getInt(step)});
    auto *loop = M->Nr<ForFlow>(util::call(it, {c}), body, x); auto *b = M->Nr<SeriesFlow>(); b->push_back(loop); f->setBody(b);
    transform::lowering::ImperativeForFlowLowering pass; pass.handle(loop);
    auto *l = cast<Value>(b->front()); bool low = false;
    if (auto *q = cast<ImperativeForFlow>(l)) { low = true; (void)q; } else if (!cast<ForFlow>(l)) std::cerr << nm << " unexpected node\n";
    (low ? lowered : kept)++; std::cout << nm << " " << (low ? "lowered" : "kept") << "\n";
    if (!low) b->erase(b->begin());      // left to the generator protocol: not executed here
  };
  for (int k = 0; k < 3; k++) { make("r1_" + std::to_string(k), 1, 0, k); make("r2_" + std::to_string(k), 2, 0, k); for (int i = 2; i < argc; i++) make("r3_" + std::to_string(i - 2) + "_" + std::to_string(k), 3, strtoll(argv[i], 0, 10), k); }
  make("rv", 3, 0, 3);
  auto *mf = cast<BodiedFunc>(M->getMainFunc()); if (!mf->getBody()) mf->setBody(M->Nr<SeriesFlow>());
  LLVMVisitor v; v.visit(M); v.writeToLLFile(argv[1], false);
}
