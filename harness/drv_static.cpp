// Evaluates compile-time operators with the real type checker on operands given on stdin: "<compat> <op> <kind><value> [<kind><value>]".
#include "codon/parser/cache.h"
#include "codon/parser/visitors/typecheck/ctx.h"
#include "codon/parser/visitors/typecheck/typecheck.h"
#include <csignal>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace codon;
using namespace codon::ast;
using namespace codon::ast::types;
static std::string unhex(const std::string &h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static std::string hex(const std::string &s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static Cache *cache;
static std::shared_ptr<TypeContext> ctx;
static TypecheckVisitor *v;
static Expr *operand(const std::string &w) {
  Expr *e = nullptr;
  if (w[0] == 'i') e = cache->N<IntExpr>((int64_t)strtoull(w.c_str() + 1, 0, 10));
  else if (w[0] == 'b') e = cache->N<BoolExpr>(w[1] == '1');
  else e = cache->N<StringExpr>(unhex(w.substr(1)));
  return v->transform(e);
}
static std::string show(Expr *e) {
  if (!e) return "none";
  auto *t = e->getType();
  if (auto *i = t->getIntStatic()) return "i" + std::to_string((uint64_t)i->value);
  if (auto *b = t->getBoolStatic()) return b->value ? "b1" : "b0";
  if (auto *s = t->getStrStatic()) return "s" + hex(s->value);
  return "dynamic";
}
static std::string one(const std::string &line) {
  std::istringstream is(line); int compat; std::string op, a, b; is >> compat >> op >> a >> b;
  cache->pythonCompat = compat;
  try {
    if (op == "int") return show(operand(a));
    auto *x = operand(a);
    Expr *r;
    if (op[0] == 'v' && op.size() > 1) { // the whole visit: short-circuiting of known operands
      auto *u = cache->N<BinaryExpr>(a[0] == 'i' ? (Expr *)x : x, op.substr(1), operand(b)); r = v->transform(u); return show(r);
    }
    if (b.empty()) { auto *u = cache->N<UnaryExpr>(op, x); u->setType(v->instantiateUnbound()); r = v->evaluateStaticUnary(u); }
    else { auto *y = operand(b); auto *u = cache->N<BinaryExpr>(x, op, y); u->setType(v->instantiateUnbound()); r = v->evaluateStaticBinary(u); }
    return show(r);
  } catch (exc::ParserException &e) { return "error"; }
}
int main() {
  cache = new Cache("", nullptr);
  for (auto *n : {"int", "bool", "str"}) cache->classes[n] = Cache::Class();
  ctx = cache->typeCtx; v = new TypecheckVisitor(ctx);
  std::string line; std::vector<std::string> in;
  while (getline(std::cin, line)) in.push_back(line);
  // a crash ends the worker; the next one goes on with the following line
  int fd[2]; size_t pos = 0;
  while (pos < in.size()) {
    if (pipe(fd)) return 2;
    pid_t p = fork();
    if (!p) { close(fd[0]); FILE *f = fdopen(fd[1], "w"); for (size_t i = pos; i < in.size(); i++) { fprintf(f, "%s\n", one(in[i]).c_str()); fflush(f); } fclose(f); _exit(0); }
    close(fd[1]); FILE *f = fdopen(fd[0], "r"); char *l = nullptr; size_t n = 0; ssize_t k;
    while ((k = getline(&l, &n, f)) > 0) { std::cout << l; pos++; }
    fclose(f); int st; waitpid(p, &st, 0);
    if (pos < in.size()) { std::cout << "crash " << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << "\n"; pos++; }
  }
}
