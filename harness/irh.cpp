// Builds IR expressions for the checks; compiled both to LLVM IR (executed symbolically together with the real IR classes) and natively.
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/cir.h"
#include "codon/cir/module.h"
#include "codon/cir/transform/cleanup/canonical.h"
#include "codon/cir/transform/folding/const_fold.h"
#include "codon/cir/util/irtools.h"
#include "codon/cir/util/side_effect.h"
#include "codon/parser/common.h"
using namespace codon::ir;
namespace {
struct Method { types::Type *parent; std::string name; std::vector<types::Type *> args; Func *f; };
std::vector<Method> *methods;
std::map<std::string, long> *opaqueIds;
}
// the type checker is not part of the verified unit: methods come from the table filled by h_method (one entry per stdlib method)
namespace codon { namespace ir {
Func *Module::getOrRealizeMethod(types::Type *parent, const std::string &methodName, std::vector<types::Type *> args, std::vector<types::Generic> generics) {
  if (methods)
    for (auto &m : *methods)
      if (m.parent == parent && m.name == methodName && m.args == args) return m.f;
  return nullptr;
}
} }
extern "C" {
void *h_module() { methods = new std::vector<Method>(); auto *M = new Module("test"); return M; }
void *h_type(Module *M, int k) {
  switch (k) {
  case 0: return M->getIntType();
  case 1: return M->getFloatType();
  case 2: return M->getBoolType();
  case 3: return M->getByteType();
  case 4: return M->unsafeGetMemberedType("User", true);
  case 5: return M->getStringType();
  case 6: return M->unsafeGetIntNType(32, true);
  case 7: return M->getFloat32Type();
  case 8: return M->getVoidType();
  }
  return nullptr;
}
void *h_int(Module *M, int64_t v) { return M->getInt(v); }
void *h_float(Module *M, double v) { return M->getFloat(v); }
void *h_bool(Module *M, bool v) { return M->getBool(v); }
void *h_str(Module *M, const char *v) { return M->getString(v); }
void *h_var(Module *M, types::Type *t, const char *name, bool global) { auto *v = M->Nr<Var>(t, global, false, false, name); return v; }
void *h_varvalue(Module *M, Var *v) { return M->Nr<VarValue>(v); }
void *h_opaque(Module *M, types::Type *t, const char *name) {
  auto *f = M->Nr<ExternalFunc>(name);
  f->realize(M->unsafeGetFuncType(std::string("fn.") + name, t, {}), {});
  f->setUnmangledName(name);
  return f;
}
void *h_method(Module *M, types::Type *parent, const char *name, types::Type *ret, types::Type *a0, types::Type *a1, int attrs) {
  std::vector<types::Type *> at{a0}; std::vector<std::string> names{"a"};
  if (a1) { at.push_back(a1); names.push_back("b"); }
  auto *f = M->Nr<LLVMFunc>(std::string(name));
  std::string tn = std::string("m.") + (parent ? parent->getName() : "") + "." + name;
  for (auto *t : at) tn += "." + t->getName();
  tn += "->" + ret->getName();
  f->realize(M->unsafeGetFuncType(tn, ret, at), names);
  f->setUnmangledName(name);
  if (parent) f->setParentType(parent);
  std::unordered_map<std::string, std::string> kv;
  if (attrs & 1) kv[codon::ast::getMangledFunc("std.internal.attributes", "commutative")] = "";
  if (attrs & 2) kv[codon::ast::getMangledFunc("std.internal.attributes", "associative")] = "";
  if (attrs & 4) kv[codon::ast::getMangledFunc("std.internal.attributes", "distributive")] = "";
  if (attrs & 8) kv[util::PURE_ATTR] = "";
  if (attrs & 15) f->setAttribute(std::make_unique<KeyValueAttribute>(kv));
  if (parent) methods->push_back({parent, name, at, f});
  return f;
}
void *h_call0(Module *M, Func *f) { return M->Nr<CallInstr>(M->Nr<VarValue>(f)); }
void *h_call1(Module *M, Func *f, Value *a) { return M->Nr<CallInstr>(M->Nr<VarValue>(f), std::vector<Value *>{a}); }
void *h_call2(Module *M, Func *f, Value *a, Value *b) { return M->Nr<CallInstr>(M->Nr<VarValue>(f), std::vector<Value *>{a, b}); }
// ---- units under verification
void *h_foldpass(Module *M, bool py) { auto *p = new transform::folding::FoldingPass(py); p->registerStandardRules(M); return p; }
void h_fold(transform::folding::FoldingPass *p, CallInstr *v) { p->handle(v); }
void *h_canonpass(Module *M) { auto *p = new transform::cleanup::CanonicalizationPass(""); p->registerStandardRules(M); return p; }
void h_canon_handle(transform::cleanup::CanonicalizationPass *p, CallInstr *v) { p->handle(v); }
void h_canon_rewrite(transform::cleanup::CanonicalizationPass *p, CallInstr *v) { p->rewrite(v); }
// ---- observers
void *h_actual(Value *v) { return v->getActual(); }
int h_kind(Value *v) {
  if (isA<IntConst>(v)) return 0;
  if (isA<FloatConst>(v)) return 1;
  if (isA<BoolConst>(v)) return 2;
  if (isA<StringConst>(v)) return 3;
  if (isA<VarValue>(v)) return 4;
  if (isA<CallInstr>(v)) return 5;
  return -1;
}
int64_t h_ival(Value *v) { return cast<IntConst>(v)->getVal(); }
double h_fval(Value *v) { return cast<FloatConst>(v)->getVal(); }
bool h_bval(Value *v) { return cast<BoolConst>(v)->getVal(); }
void *h_valtype(Value *v) { return v->getType(); }
void *h_var_of(Value *v) { return cast<VarValue>(v)->getVar(); }
void *h_callee(Value *v) { return util::getFunc(cast<CallInstr>(v)->getCallee()); }
int64_t h_nargs(Value *v) { return cast<CallInstr>(v)->numArgs(); }
void *h_front(Value *v) { return cast<CallInstr>(v)->front(); }
void *h_back(Value *v) { return cast<CallInstr>(v)->back(); }
}
#ifdef IRH_MAIN
#include IRH_MAIN
#endif
