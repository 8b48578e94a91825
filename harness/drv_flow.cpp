// Native oracles for the dataflow fixpoints and the pass manager: every small graph and schedule, random larger ones.
// modes: graphs SEED COUNT OUT (COUNT 0: all graphs of up to 3 blocks), schedules SEED COUNT OUT (COUNT 0: all), standard OUT
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/cir.h"
#include <map>
#include <random>
#include <set>
#include <sys/resource.h>
#include <unistd.h>
using namespace codon::ir;
using namespace codon::ir::analyze::dataflow;
using std::string; using std::vector;
extern "C" void *h_module();
typedef codon::ir::Value V;
struct GSpec { int n; vector<vector<int>> succ; vector<vector<int>> items; }; // item k >= 0: assignment of variable k; -1: a use; -2-k: pointer to variable k
static string show(const GSpec &g) { string s; for (int i = 0; i < g.n; i++) { s += "block " + std::to_string(i) + ": "; for (int x : g.items[i]) s += x >= 0 ? "v" + std::to_string(x) + "=… " : x == -1 ? "use " : "&v" + std::to_string(-2 - x) + " "; s += "→"; for (int x : g.succ[i]) s += " " + std::to_string(x); s += "; "; } return s; }
static string graph(Module *M, types::Type *I, BodiedFunc *f, const vector<Var *> &vars, const GSpec &g) {
  CFGraph c(f); vector<CFBlock *> b{c.getEntryBlock()}; for (int i = 1; i < g.n; i++) b.push_back(c.newBlock("b"));
  vector<vector<V *>> vals(g.n); std::map<const V *, std::pair<int, int>> at; vector<std::unique_ptr<V>> own; auto *rhs = M->getInt(1);
  for (int i = 0; i < g.n; i++) {
    for (int x : g.items[i]) { V *v = x >= 0 ? (V *)new AssignInstr(vars[x], M->getInt(1)) : x == -1 ? (V *)new VarValue(vars[0]) : (V *)new PointerValue(vars[-2 - x]); v->setModule(M); own.emplace_back(v); b[i]->push_back(v); at[v] = {i, (int)vals[i].size()}; vals[i].push_back(v); }
    for (int x : g.succ[i]) b[i]->successors_insert(b[x]);
  }
  (void)rhs;
  RDInspector rd(&c); rd.analyze(); DominatorInspector dom(&c); dom.analyze();
  vector<bool> reach(g.n); vector<int> todo{0}; reach[0] = true; while (!todo.empty()) { int x = todo.back(); todo.pop_back(); for (int y : g.succ[x]) if (!reach[y]) { reach[y] = true; todo.push_back(y); } }
  for (size_t v = 0; v < vars.size(); v++) {
    bool ptr = false; for (auto &l : g.items) for (int x : l) ptr |= x == -2 - (int)v;
    // definitions at block starts: follow every path from every assignment
    vector<std::set<V *>> in(g.n);
    for (int i = 0; i < g.n; i++) if (reach[i]) {
      V *last = nullptr; for (size_t j = 0; j < vals[i].size(); j++) if (g.items[i][j] == (int)v) last = vals[i][j];
      if (!last) continue;
      vector<int> st(g.succ[i]); std::set<int> seen;
      while (!st.empty()) { int x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; in[x].insert(last); bool kills = false; for (int k : g.items[x]) kills |= k == (int)v; if (!kills) for (int y : g.succ[x]) st.push_back(y); }
    }
    for (int i = 0; i < g.n; i++) if (reach[i]) {
      auto cur = in[i];
      for (size_t j = 0; j < vals[i].size(); j++) {
        if (g.items[i][j] == (int)v) cur = {vals[i][j]};
        auto r = rd.getReachingDefinitions(vars[v], vals[i][j]); std::set<const V *> got; for (auto &d : r) got.insert(d.assignment);
        if (ptr) { if (!r.empty()) return "a variable whose address is taken has reaching definitions"; continue; }
        for (auto *d : cur) if (!got.count(d)) return "the definition of v" + std::to_string(v) + " at block " + std::to_string(at[d].first) + "." + std::to_string(at[d].second) + " reaches block " + std::to_string(i) + "." + std::to_string(j) + " but is not reported";
        for (auto *d : got) if (!at.count(d) || g.items[at[d].first][at[d].second] != (int)v) return "something that is not a definition of v" + std::to_string(v) + " is reported";
      }
    }
  }
  for (int d = 0; d < g.n; d++) if (reach[d]) {
    vector<bool> av(g.n); vector<int> st; if (d) { st.push_back(0); av[0] = true; }
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : g.succ[x]) if (y != d && !av[y]) { av[y] = true; st.push_back(y); } }
    for (int i = 0; i < g.n; i++) if (reach[i]) for (size_t j = 0; j < vals[i].size(); j++) for (size_t k = 0; k < vals[d].size(); k++) {
      bool truth = i == d ? k <= j : !av[i];
      if (dom.isDominated(vals[i][j], vals[d][k]) && !truth) return "block " + std::to_string(d) + "." + std::to_string(k) + " is reported to dominate block " + std::to_string(i) + "." + std::to_string(j);
    }
  }
  return "";
}
static int graphs(unsigned long seed, long cnt, FILE *out) {
  auto *M = (Module *)h_module(); auto *I = M->getIntType(); auto *f = M->Nr<BodiedFunc>("f"); f->realize(M->unsafeGetFuncType("tf", I, {}), {}); vector<Var *> vars; for (int i = 0; i < 3; i++) vars.push_back(M->Nr<Var>(I));
  long n = 0, bad = 0; vector<Var *> v2(vars.begin(), vars.begin() + 2);
  auto one = [&](const vector<Var *> &vs, const GSpec &g) { n++; auto r = graph(M, I, f, vs, g); if (!r.empty() && bad++ < 3) fprintf(out, "bad %s [%s]\n", r.c_str(), show(g).substr(0, 900).c_str()); };
  if (!cnt) {
    static const vector<vector<int>> C = {{-1}, {0, -1}, {-1, 0}, {1, 0, -1}, {0, 0, -1}, {-2, -1}};
    for (int nb = 1; nb <= 3; nb++) for (int e = 0; e < 1 << (nb * (nb - 1)); e++) {   // the entry block has no predecessors
      int tot = 1; for (int i = 0; i < nb; i++) tot *= C.size();
      for (int k = 0; k < tot; k++) {
        (void)seed;
        GSpec g; g.n = nb; int z = k; for (int i = 0; i < nb; i++) { g.items.push_back(C[z % C.size()]); z /= C.size(); vector<int> s; for (int j = 1; j < nb; j++) if (e >> (i * (nb - 1) + j - 1) & 1) s.push_back(j); g.succ.push_back(s); }
        one(v2, g);
      }
    }
  } else {
    std::mt19937_64 r(seed);
    for (long i = 0; i < cnt; i++) {
      GSpec g; g.n = 2 + r() % 9; bool big = r() % 4 == 0, ptr = r() % 8 == 0;
      for (int b = 0; b < g.n; b++) { vector<int> it, s; int k = big ? r() % 30 : r() % 4; for (int j = 0; j < k; j++) { int x = r() % 5; it.push_back(x < 3 ? x : ptr && r() % 4 == 0 ? -2 - (int)(r() % 3) : -1); } it.push_back(-1); std::set<int> ss; int m = r() % 3; if (b + 1 < g.n) m += r() % 2; for (int j = 0; j < m; j++) ss.insert(1 + r() % (g.n - 1)); if (b + 1 < g.n && r() % 3) ss.insert(b + 1); g.succ.push_back({ss.begin(), ss.end()}); g.items.push_back(it); }
      one(vars, g);
    }
  }
  fprintf(out, "done %ld bad %ld\n", n, bad); return 0;
}
// --- pass manager: what is up to date when a pass runs ---
using codon::ir::transform::PassManager; using codon::ir::transform::Pass;
struct Log { long now = 0; std::map<string, long> ran; vector<string> order; string bad; };
struct TR : analyze::Result { long at; };
struct TA : analyze::Analysis {
  Log *l; string k; vector<string> deps; TA(Log *l, string k, vector<string> d) : l(l), k(k), deps(d) {}
  string getKey() const override { return k; }
  std::unique_ptr<analyze::Result> run(const Module *) override { auto r = std::make_unique<TR>(); for (auto &d : deps) if (!getAnalysisResult<TR>(d)) l->bad = "analysis " + k + " runs without a result of " + d; l->ran[k] = r->at = ++l->now; return r; }
};
struct TP : Pass {
  Log *l; string k; vector<string> reqs, inv; const std::map<string, vector<string>> *deps; int rep; std::map<string, long> *stale; long runs = 0;
  string getKey() const override { return k; }
  bool shouldRepeat(int n) const override { return n < rep; }
  void run(Module *) override {
    runs++; l->order.push_back(k);
    std::set<string> seen; vector<string> todo(reqs);
    while (!todo.empty()) {
      auto a = todo.back(); todo.pop_back(); if (!seen.insert(a).second) continue;
      auto *r = getAnalysisResult<TR>(a); if (!r) { l->bad = "pass " + k + " runs without a result of " + a; return; }
      if (r->at < (*stale)[a]) l->bad = "pass " + k + " sees a result of " + a + " that was invalidated";
      for (auto &d : deps->at(a)) { auto *q = getAnalysisResult<TR>(d); if (!q) { l->bad = "pass " + k + " runs without a result of " + d; return; } if (q->at > r->at) l->bad = "pass " + k + " sees a result of " + a + " older than the result of " + d + " it depends on"; todo.push_back(d); }
    }
    // from here on, what this pass invalidates (and all that depends on it) is out of date
    long t = ++l->now; std::set<string> dead(inv.begin(), inv.end()); for (bool ch = true; ch;) { ch = false; for (auto &e : *deps) if (!dead.count(e.first)) for (auto &d : e.second) if (dead.count(d)) { dead.insert(e.first); ch = true; break; } }
    for (auto &a : dead) (*stale)[a] = t;
  }
};
struct PSpec { vector<int> reqs, inv; int rep; int before; };
static string schedule(Module *M, int na, int dag, const vector<PSpec> &ps) {
  Log l; std::map<string, vector<string>> deps; std::map<string, long> stale; PassManager pm(PassManager::Init::EMPTY); vector<string> keys; int bit = 0;
  for (int i = 0; i < na; i++) { vector<string> d; for (int j = 0; j < i; j++) if (dag >> bit++ & 1) d.push_back(keys[j]); auto k = pm.registerAnalysis(std::make_unique<TA>(&l, "a" + std::to_string(i), d), d); if (k != "a" + std::to_string(i)) return "unexpected key " + k; keys.push_back(k); deps[k] = d; }
  vector<string> order, pk;
  for (size_t i = 0; i < ps.size(); i++) {
    auto p = std::make_unique<TP>(); p->l = &l; p->k = "p" + std::to_string(i); p->deps = &deps; p->stale = &stale; p->rep = ps[i].rep; for (int x : ps[i].reqs) p->reqs.push_back(keys[x]); for (int x : ps[i].inv) p->inv.push_back(keys[x]);
    auto r = p->reqs, v = p->inv; string before = ps[i].before >= 0 && ps[i].before < (int)i ? pk[ps[i].before] : ""; auto k = pm.registerPass(std::move(p), before, r, v); pk.push_back(k);
    auto it = before.empty() ? order.end() : std::find(order.begin(), order.end(), before); order.insert(it, k);
  }
  pm.run(M); vector<string> want; for (auto &k : order) for (int i = 0; i < std::max(1, ps[std::stoi(k.substr(1))].rep); i++) want.push_back(k);
  if (l.bad.empty() && l.order != want) { l.bad = "passes run in the wrong order:"; for (auto &k : l.order) l.bad += " " + k; }
  return l.bad;
}
static int schedules(unsigned long seed, long cnt, FILE *out) {
  auto *M = (Module *)h_module(); long n = 0, bad = 0; auto bits = [](int m) { vector<int> r; for (int i = 0; i < 4; i++) if (m >> i & 1) r.push_back(i); return r; };
  auto one = [&](int na, int dag, const vector<PSpec> &ps) { n++; auto r = schedule(M, na, dag, ps); if (!r.empty() && bad++ < 3) { fprintf(out, "bad %s [%d analyses, dependencies %x;", r.c_str(), na, dag); for (auto &p : ps) { fprintf(out, " pass requires"); for (int x : p.reqs) fprintf(out, " a%d", x); fprintf(out, " invalidates"); for (int x : p.inv) fprintf(out, " a%d", x); fprintf(out, " repeats %d before %d;", p.rep, p.before); } fprintf(out, "]\n"); } };
  if (!cnt) { for (int na = 1; na <= 4; na++) for (int dag = 0; dag < 1 << (na * (na - 1) / 2); dag++) for (int q = 0; q < 1 << na; q++) for (int v = 0; v < 1 << na; v++) for (int q2 = 1; q2 < 1 << na; q2++) if (na < 4 || ((q * 5 + v * 3 + q2 + dag) & 7) == (int)(seed & 7)) one(na, dag, {{bits(q), bits(v), 0, -1}, {bits(q2), {}, 0, -1}}); }
  else { std::mt19937_64 r(seed); for (long i = 0; i < cnt; i++) { int na = 1 + r() % 4; vector<PSpec> ps; int np = 2 + r() % 4; for (int p = 0; p < np; p++) { auto v = bits(r() % (1 << na)); std::shuffle(v.begin(), v.end(), r); auto q = bits(r() % (1 << na)); std::shuffle(q.begin(), q.end(), r); ps.push_back({q, v, r() % 3 ? 0 : (int)(r() % 4), r() % 4 ? -1 : (int)(r() % np)}); } one(na, r() & 63, ps); } }
  fprintf(out, "done %ld bad %ld\n", n, bad); return 0;
}
// the registered schedules: a pass may change the program, so no analysis computed before it may serve a later pass
static int standard(FILE *out) {
  long n = 0, bad = 0;
  for (auto init : {PassManager::Init::DEBUG, PassManager::Init::RELEASE, PassManager::Init::JIT}) for (int py = 0; py < 2; py++) {
    PassManager pm(init, {}, py); std::set<string> have, stale; auto *nm = init == PassManager::Init::DEBUG ? "debug" : init == PassManager::Init::RELEASE ? "release" : "jit";
    std::function<void(const string &, const string &)> need = [&](const string &a, const string &p) {
      n++; if (have.count(a)) { if (stale.count(a) && bad++ < 5) fprintf(out, "bad in the %s schedule pass %s uses a result of %s computed before an earlier pass ran\n", nm, p.c_str(), a.c_str()); return; }
      for (auto &d : pm.analyses[a].reqs) need(d, p); have.insert(a); pm.results[a] = std::make_unique<TR>();
    };
    for (auto &k : pm.executionOrder) for (int round = 0; round < 2; round++) {
      auto &m = pm.passes[k]; for (auto &q : m.reqs) need(q, k);
      for (auto &h : have) stale.insert(h);
      for (auto &v : m.invalidates) pm.invalidate(v);
      for (auto it = have.begin(); it != have.end();) if (!pm.results.count(*it)) { stale.erase(*it); it = have.erase(it); } else ++it;
    }
  }
  fprintf(out, "done %ld bad %ld\n", n, bad); return 0;
}
extern "C" int flow_main(int argc, char **argv) {
  string m = argv[1]; FILE *out = fopen(argv[argc - 1], "w"); if (!out) return 2; rlimit rl{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_AS, &rl); alarm(500);
  int r = m == "graphs" ? graphs(atol(argv[2]), atol(argv[3]), out) : m == "schedules" ? schedules(atol(argv[2]), atol(argv[3]), out) : standard(out); fclose(out); fflush(stdout); _exit(r);
}
