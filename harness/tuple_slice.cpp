// Stand-ins for the syntax tree around transformStaticTupleIndex; the functions themselves are the text of op.cpp, inserted below.
#include <cstdint>
#include <functional>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>
struct Err {};
enum class Error { TUPLE_RANGE_BOUNDS, SLICE_STEP_ZERO };
template <class... A> void E(A &&...) { throw Err(); }
enum class LiteralKind { Runtime, String };
struct IntStatic { int64_t value; };
struct ClassType; struct Expr;
struct Type { bool known = false; IntStatic i{0}; bool isStr = false; std::string str; LiteralKind getStaticKind() const { return isStr ? LiteralKind::String : LiteralKind::Runtime; } bool canRealize() const { return true; }
  IntStatic *getIntStatic() { return known ? &i : nullptr; } ClassType *getClass() { return nullptr; } };
struct ClassType : Type { int n; bool isRecord() const { return true; } bool is(const std::string &s) const { return s == "Tuple"; } };
struct SrcInfo {};
struct Expr { Type ty; std::string text; virtual ~Expr() = default; Type *getType() { return &ty; } };
struct IntExpr : Expr { IntExpr(int64_t v) { ty.known = true; ty.i.value = v; } };
struct IdExpr : Expr { IdExpr(const std::string &) {} };
struct StringExpr : Expr { StringExpr(const std::string &s) { text = s; } };
struct DotExpr : Expr { DotExpr(Expr *, const std::string &m) { text = m; } };
struct SliceExpr : Expr { Expr *a, *b, *c; SliceExpr(Expr *a, Expr *b, Expr *c) : a(a), b(b), c(c) {} Expr *getStart() const { return a; } Expr *getStop() const { return b; } Expr *getStep() const { return c; } };
struct CallExpr : Expr { CallExpr(Expr *, Expr *) {} CallExpr(Expr *, const std::vector<Expr *> &v) { for (auto *e : v) text += e->text; } };
struct Stmt {};
struct AssignStmt : Stmt { AssignStmt(Expr *, Expr *) {} };
struct StmtExpr : Expr { StmtExpr(const std::vector<Stmt *> &, Expr *e) { text = e->text; } StmtExpr(Stmt *, Expr *e) { text = e->text; } };
template <class T> T *cast(Expr *e) { return dynamic_cast<T *>(e); }
template <class T> T *clone(T *e) { return e; }
const std::string TYPE_TUPLE = "Tuple", TYPE_OPTIONAL = "Optional", FN_OPTIONAL_UNWRAP = "unwrap";
struct Field { std::string name; };
struct TypecheckVisitor {
  template <class T, class... A> T *N(A &&...a) const { return new T(std::forward<A>(a)...); }
  template <class T> T *transform(T *e) { return e; }
  std::string getTemporaryVar(const std::string &s) { return s; }
  std::string getStrLiteral(Type *t) { return t->str; }
  ClassType *extractClassGeneric(ClassType *) { return nullptr; }
  std::vector<Field> getClassFields(ClassType *t) const { std::vector<Field> r; for (int i = 0; i < t->n; i++) r.push_back({std::string(1, (char)('a' + i))}); return r; }
  std::string generateTuple(size_t) { return ""; }
  SrcInfo getSrcInfo() const { return {}; }
  std::pair<bool, Expr *> transformStaticTupleIndex(ClassType *, Expr *, Expr *);
  int64_t translateIndex(int64_t, int64_t, bool = false) const;
  int64_t sliceAdjustIndices(int64_t, int64_t *, int64_t *, int64_t) const;
};
/*FUNCTIONS*/
static Expr *num(const std::string &w) { return w == "-" ? nullptr : (Expr *)new IntExpr((int64_t)strtoll(w.c_str(), 0, 10)); }
static std::string one(const std::string &line) {
  std::istringstream is(line); std::string k, a, b, c; int n; is >> k >> n >> a >> b >> c;
  ClassType t; t.n = n; Expr e; TypecheckVisitor v;
  if (k == "S" || k == "I") { e.ty.isStr = true; for (int i = 0; i < n; i++) e.ty.str += (char)('a' + i); k = k == "S" ? "s" : "i"; }
  try {
    auto r = v.transformStaticTupleIndex(&t, &e, k == "i" ? num(a) : (Expr *)new SliceExpr(num(a), num(b), num(c)));
    return !r.first || !r.second ? "none" : "ok " + r.second->text;
  } catch (Err &) { return "error"; }
}
int main() {
  std::string line; std::vector<std::string> in;
  while (getline(std::cin, line)) in.push_back(line);
  int fd[2], crashes = 0; size_t pos = 0;
  while (pos < in.size() && crashes < 6) {
    if (pipe(fd)) return 2;
    std::cout << std::flush; pid_t p = fork();
    if (!p) { close(fd[0]); FILE *f = fdopen(fd[1], "w"); for (size_t i = pos; i < in.size(); i++) { alarm(3); fprintf(f, "%s\n", one(in[i]).c_str()); fflush(f); } fclose(f); _exit(0); }
    close(fd[1]); FILE *f = fdopen(fd[0], "r"); char *l = nullptr; size_t n = 0; ssize_t k;
    while ((k = getline(&l, &n, f)) > 0) { std::cout << l; pos++; }
    fclose(f); int st; waitpid(p, &st, 0);
    if (pos < in.size()) { crashes++; std::cout << "crash " << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << "\n"; pos++; }
  }
}
