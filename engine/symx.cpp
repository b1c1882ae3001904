// symx: a small symbolic executor for LLVM IR (LLVM 18) deciding assertions with Z3.
#include "mem.hpp"
#include <llvm/ADT/StringExtras.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <cmath>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef std::string str;
static ExprPool P;
static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options / stats
static struct Opts {
  str linkOut, out, entry = "harness"; double maxTime = 600; uint64_t maxInst = 200000000ull; unsigned maxViol = 3; unsigned maxSamples = 6;
  unsigned solverMs = 60000; uint64_t maxPaths = 10000000; bool trace = false; std::vector<str> files;
  std::map<str, int64_t> params; unsigned spin = 3; str dumpIR; bool stopFirst = false; uint64_t maxConc = 300; size_t maxMemMB = 12000;
  bool noOpt = false;
} O;
static struct Stats {
  uint64_t inst = 0, paths = 0, forks = 0, queries = 0, cacheHits = 0, modelHits = 0, unknown = 0, assumed = 0, infeasible = 0, asserts = 0, assertQueries = 0;
  double solver = 0, maxQuery = 0; uint64_t sat = 0, unsat = 0; uint64_t schedPoints = 0;
} S;
struct Viol { str kind, msg, loc; std::vector<std::tuple<str, unsigned, uint64_t>> inputs; std::vector<str> stack; };
static std::vector<Viol> viols;
static std::set<str> violKeys;
static std::map<str, uint64_t> reached;
static std::map<str, uint64_t> incomplete;
static std::set<str> undefCalled;

// ------------------------------------------------------------------ compiled code
struct Opnd { int reg = -1; Val k; };
struct CInst {
  Instruction* I; unsigned op; int dst = -1; unsigned w = 0; unsigned bytes = 0; unsigned w2 = 0;
  std::vector<Opnd> ops; std::vector<int64_t> scale; int64_t off = 0; int t0 = -1, t1 = -1;
  Function* callee = nullptr; int builtin = -1; bool executed = false; bool vec = false; bool isPtrW = false;
  std::vector<std::pair<uint64_t, int>> cases; unsigned pred = 0; bool atomic = false; Type* ty = nullptr;
  std::vector<unsigned> idx;
};
struct CBlock { std::vector<CInst> in; unsigned nphi = 0; BasicBlock* bb; };
struct CFunc { Function* F; std::vector<CBlock> b; unsigned nregs = 0; std::unordered_map<const BasicBlock*, int> bi; std::unordered_map<const llvm::Value*, int> ri; bool entered = false; };

static Module* M; static const DataLayout* DL;
static std::unordered_map<Function*, CFunc*> cfuncs;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::vector<Function*> funcTab;
static std::unordered_map<const Constant*, Val> constCache;
static std::unordered_map<str, int> tinfoIds; // typeinfo name -> selector id
static const uint64_t FUNC_ID = 1;

struct ExcRec { uint64_t obj = 0, ti = 0, dtor = 0; int handlers = 0; bool rethrown = false; };
struct Frame {
  CFunc* f; int bb = 0, ip = 0, prev = -1; std::vector<Val> regs; std::vector<uint32_t> allocas; int retDst = -1;
  std::vector<Val> va; // variadic arguments, zero-extended to 64 bits
  int special = 0; uint64_t sdata = 0; // special==1: free exception object sdata after return
};
enum TStat { T_RUN, T_WAIT, T_DONE };
struct Thread {
  int id; std::vector<Frame> st; TStat stat = T_RUN; uint64_t waitAddr = 0; std::vector<ExcRec> caught; ExcRec cur; bool unwinding = false;
  std::map<uint64_t, uint64_t> tls; // global addr -> obj addr
  const CInst* spinI = nullptr; uint64_t spinAddr = 0, spinVal = 0; unsigned spinN = 0; bool yielded = false;
};
struct ModelRC { int rc = 0; std::vector<uint64_t> v; };
struct InputRec { str name; ER e; };
struct State {
  Memory mem; std::vector<Thread> th; int cur = 0; std::vector<ER> pc; RC<ModelRC> model{new ModelRC};
  std::vector<InputRec> inputs; std::unordered_map<str, int> nameCnt; int schedMode = 0; int preempt = 0; uint64_t inst = 0; unsigned depth = 0;
  std::map<uint64_t, ExcRec> exObjs; bool skipSched = false; unsigned nchoice = 0; std::set<uint32_t> secretVars; bool allowDeadlock = false;
  long heapMark = 0; unsigned fresh = 0; std::vector<str> labels;
};
static std::vector<State*> work;

struct PathEnd { str why; };      // path finished / pruned
struct Retry {};                  // re-schedule loop

// ------------------------------------------------------------------ solver
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH64 { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, VH64> qcache;
static Z3_solver zs; static std::vector<str> stackOf(struct State& s); static State* curState = nullptr;
static std::deque<RC<ModelRC>> recentModels;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void z3init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  P.z3 = Z3_mk_context(cfg); Z3_set_error_handler(P.z3, z3err);
}
static int z3check(const std::vector<ER>& cs, std::vector<std::pair<uint32_t, uint64_t>>& m) {
  double t0 = nowS();
  static Z3_solver s = nullptr; 
  if (!s) {
    const char* tn[] = {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat"};
    Z3_tactic t = nullptr;
    for (auto n : tn) { Z3_tactic x = Z3_mk_tactic(P.z3, n); Z3_tactic_inc_ref(P.z3, x);
      t = t ? Z3_tactic_and_then(P.z3, t, x) : x; Z3_tactic_inc_ref(P.z3, t); }
    s = Z3_mk_solver_from_tactic(P.z3, t); Z3_solver_inc_ref(P.z3, s);
    Z3_params p = Z3_mk_params(P.z3); Z3_params_inc_ref(P.z3, p);
    Z3_params_set_uint(P.z3, p, Z3_mk_string_symbol(P.z3, "timeout"), O.solverMs); Z3_solver_set_params(P.z3, s, p);
  }
  Z3_solver_reset(P.z3, s);
  for (ER c : cs) Z3_solver_assert(P.z3, s, P.tobool(c));
  Z3_lbool r = Z3_solver_check(P.z3, s);
  ++S.queries; int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    ++S.sat;
    Z3_model md = Z3_solver_get_model(P.z3, s); Z3_model_inc_ref(P.z3, md);
    std::set<uint32_t> vs; for (ER c : cs) vs.insert(c->vars->begin(), c->vars->end());
    for (uint32_t v : vs) { Z3_ast o = nullptr; uint64_t x = 0;
      if (Z3_model_eval(P.z3, md, P.tr(P.varExprs[v]), true, &o)) Z3_get_numeral_uint64(P.z3, o, (uint64_t*)&x);
      m.push_back({v, x}); }
    Z3_model_dec_ref(P.z3, md);
  } else if (res == 0) ++S.unsat; else ++S.unknown;
  double dt = nowS() - t0; S.solver += dt; if (dt > S.maxQuery) S.maxQuery = dt;
  if (O.trace && dt > 2 && curState) { fprintf(stderr, "slow query %.1fs res %d, %zu constraints\n", dt, res, cs.size()); for (auto& x : stackOf(*curState)) fprintf(stderr, "    %s\n", x.c_str()); }
  return res;
}
// is  pc(slice) && cond  satisfiable?   on SAT fills `out` with a full model for the state
static int solve(State& s, ER cond, RC<ModelRC>* out) {
  curState = &s;
  if (cond->op == E_CONST) { if (!cond->c) return 0; if (out) *out = s.model; return 1; }
  if (P.eval(cond, s.model->v)) { ++S.modelHits; if (out) *out = s.model; return 1; }
  // slice
  std::vector<ER> cs; cs.push_back(cond);
  std::vector<uint32_t> vs = *cond->vars; std::vector<char> used(s.pc.size(), 0);
  std::vector<char> inv(P.varInfo.size(), 0); for (auto v : vs) inv[v] = 1;
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.pc.size(); ++i) if (!used[i]) {
      bool hit = false; for (auto v : *s.pc[i]->vars) if (inv[v]) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(s.pc[i]); for (auto v : *s.pc[i]->vars) if (!inv[v]) { inv[v] = 1; ch = true; } }
    } }
  std::vector<uint32_t> key; for (ER c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    // try recent models
    QRes q; q.r = -2;
    for (auto& m : recentModels) {
      ++P.evEpoch; P.evModel = &m->v; bool ok = true;
      for (ER c : cs) if (!P.ev(c)) { ok = false; break; }
      if (ok) { q.r = 1; std::set<uint32_t> v2; for (ER c : cs) v2.insert(c->vars->begin(), c->vars->end());
        for (auto v : v2) q.m.push_back({v, v < m->v.size() ? m->v[v] & maskw(P.varInfo[v].w) : 0}); ++S.modelHits; break; }
    }
    if (q.r == -2) q.r = z3check(cs, q.m);
    it = qcache.emplace(std::move(key), std::move(q)).first;
  } else ++S.cacheHits;
  if (it->second.r == 1 && out) {
    RC<ModelRC> m(new ModelRC); m->v = s.model->v;
    if (m->v.size() < P.varInfo.size()) m->v.resize(P.varInfo.size(), 0);
    for (auto& x : it->second.m) m->v[x.first] = x.second;
    *out = m; recentModels.push_front(m); if (recentModels.size() > 12) recentModels.pop_back();
  }
  return it->second.r;
}
static void addPC(State& s, ER c) {
  if (c->op == E_CONST) return;
  if (c->op == E_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  for (ER x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}
// constrain; returns false if infeasible
static bool assume(State& s, ER c) {
  if (c->op == E_CONST) return c->c;
  if (P.eval(c, s.model->v)) { addPC(s, c); return true; }
  RC<ModelRC> m; int r = solve(s, c, &m);
  if (r == -1) { ++incomplete["solver-unknown"]; return false; }
  if (r == 0) return false;
  s.model = m; addPC(s, c); return true;
}

// ------------------------------------------------------------------ helpers
static ER toE(const Val& v, unsigned w) { return v.e ? v.e : P.K(v.c, w); }
static Val fromE(ER e) { Val v; if (e->op == E_CONST) v.c = e->c; else v.e = e; return v; }
static Frame& F(State& s) { return s.th[s.cur].st.back(); }
static str locOf(Instruction* I) {
  if (!I) return "?";
  if (DILocation* l = I->getDebugLoc()) {
    str r = (l->getFilename() + ":" + Twine(l->getLine())).str();
    return r;
  }
  return I->getFunction()->getName().str();
}
static str curLoc(State& s) { if (s.th[s.cur].st.empty()) return "?"; Frame& f = F(s); auto& b = f.f->b[f.bb]; if (f.ip < (int)b.in.size()) return locOf(b.in[f.ip].I); return "?"; }
static std::vector<str> stackOf(State& s) {
  std::vector<str> r; auto& st = s.th[s.cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && r.size() < 14; --i) { Frame& f = st[i]; auto& b = f.f->b[f.bb];
    Instruction* I = f.ip < (int)b.in.size() ? b.in[f.ip].I : nullptr;
    if (I && I->getDebugLoc()) { DILocation* l = I->getDebugLoc(); while (l) { r.push_back((l->getScope()->getSubprogram()->getName() + " " + l->getFilename() + ":" + Twine(l->getLine())).str()); l = l->getInlinedAt(); } }
    else r.push_back(demangle(f.f->F->getName().str())); }
  return r;
}
static void report(State& s, const str& kind, const str& msg, const std::vector<uint64_t>& model) {
  str loc = curLoc(s); str key = kind + "|" + msg + "|" + loc;
  if (!violKeys.insert(key).second) return;
  Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackOf(s);
  for (auto& in : s.inputs) v.inputs.push_back({in.name, in.e->w, P.eval(in.e, model)});
  viols.push_back(v);
  if (O.trace) { fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str()); for (auto& x : v.stack) fprintf(stderr, "    %s\n", x.c_str()); 
    for (auto& in : v.inputs) fprintf(stderr, "    %s = %#llx\n", std::get<0>(in).c_str(), (unsigned long long)std::get<2>(in)); }
}
static void fatalPath(State& s, const str& kind, const str& msg) { report(s, kind, msg, s.model->v); throw PathEnd{"violation"}; }
// check that cond always holds; report otherwise, then assume it
static void require(State& s, ER cond, const str& kind, const str& msg) {
  ++S.asserts;
  if (cond->op == E_CONST) { if (!cond->c) fatalPath(s, kind, msg); return; }
  ++S.assertQueries;
  RC<ModelRC> m; int r = solve(s, P.Not(cond), &m);
  if (r == -1) ++incomplete["solver-unknown"];
  if (r == 1) report(s, kind, msg, m->v);
  if (!assume(s, cond)) throw PathEnd{"violation"};
}
static State* clone(State& s) { ++S.forks; State* n = new State(s); return n; }
// fork on symbolic value: after return the value is concrete in s (others re-execute the instruction)
static uint64_t concretize(State& s, ER e, const char* why) {
  if (e->op == E_CONST) return e->c;
  uint64_t v = P.eval(e, s.model->v); ER eq = P.Eq(e, P.K(v, e->w)); ER ne = P.Not(eq);
  if (s.skipSched && 0) {}
  RC<ModelRC> m; int r = solve(s, ne, &m);
  if (r == -1) ++incomplete["solver-unknown"];
  if (r == 1) { State* n = clone(s); n->model = m; addPC(*n, ne); n->depth++; work.push_back(n); }
  addPC(s, eq);
  return v;
}
static uint64_t conc(State& s, const Val& v, const char* why) { return v.e ? concretize(s, v.e, why) : v.c; }

// ------------------------------------------------------------------ memory access
static str objDesc(State& s, const Obj* o, uint64_t id) {
  static const char* kn[] = {"none", "global", "heap", "stack", "func", "tls"};
  return str(kn[o->kind]) + " object of " + std::to_string(o->size) + " bytes";
}
// resolve address to (objid, offset expr/const); checks liveness+bounds for n bytes
struct Ref { uint64_t id; uint64_t off; ER offE; };
static Ref resolve(State& s, const Val& a, uint64_t n, bool write) {
  uint64_t addr; ER e = a.e;
  if (e) {
    // split pointer ITEs by forking
    while (e->op == E_ITE) { uint64_t cv = concretize(s, e->a, "ptr-ite"); e = cv ? e->b : e->d; }
    if (e->op == E_ADD && e->a->op == E_ITE && e->b->op == E_CONST) { ER i = e->a; uint64_t cv = concretize(s, i->a, "ptr-ite"); e = P.Add(cv ? i->b : i->d, e->b); }
    addr = e->op == E_CONST ? e->c : P.eval(e, s.model->v);
    if (e->op == E_CONST) e = nullptr;
  } else addr = a.c;
  uint64_t id = addr >> 32, off = addr & 0xffffffff;
  if (e && (addr >> 48 || !s.mem.get(id) )) {
    // model value is wild: is there a path where it is? report
    fatalPath(s, "memory", str(write ? "write" : "read") + " through an unconstrained/invalid pointer");
  }
  const Obj* o = s.mem.get(id);
  char b[64];
  if (!o) { snprintf(b, sizeof b, "%#llx", (unsigned long long)addr); fatalPath(s, "memory", str(write ? "write to" : "read from") + (addr < (1ull << 32) ? " null-ish address " : " invalid address ") + b); }
  if (o->kind == OK_FUNC) fatalPath(s, "memory", "data access to function");
  if (!o->alive) fatalPath(s, "memory", str(write ? "write to" : "read from") + " freed " + objDesc(s, o, id));
  if (!e) {
    if (off + n > o->size) { fatalPath(s, "memory", str("out-of-bounds ") + (write ? "write" : "read") + " in " + objDesc(s, o, id)); }
    if (write && o->ro) fatalPath(s, "memory", "write to constant");
    return {id, off, nullptr};
  }
  if (write && o->ro) fatalPath(s, "memory", "write to constant");
  ER offE = P.Sub(e, P.K(id << 32, 64));
  if (o->size < n) fatalPath(s, "memory", str("out-of-bounds ") + (write ? "write" : "read") + " in " + objDesc(s, o, id));
  require(s, P.Ule(offE, P.K(o->size - n, 64)), "memory", str("out-of-bounds ") + (write ? "write" : "read") + " in " + objDesc(s, o, id));
  if (o->size > 1024 || n > 8) { uint64_t v = concretize(s, offE, "sym-offset"); return {id, v, nullptr}; }
  // feasible single?
  return {id, 0, offE};
}
static ER byteE(State& s, uint64_t id, uint64_t off) {
  const Obj* o = s.mem.get(id); uint8_t c; ER e;
  if (getByte(o, off, c, e)) return P.K(c, 8);
  if (e) return e;
  char b[32]; snprintf(b, sizeof b, "__uninit%u", s.fresh++);
  e = P.var(b, 8); putSym(s.mem.getw(id), off, e); return e;
}
static Val loadN(State& s, uint64_t id, uint64_t off, unsigned n) {
  const Obj* o = s.mem.get(id);
  uint64_t pi = off / PG; unsigned i = off % PG;
  if (i + n <= PG) {
    const Page* p = Memory::pager(o, pi);
    if (!p) { if (o->zero) return Val(0); }
    else if (!p->hasSym) {
      bool ok = true; for (unsigned k = 0; k < n; ++k) if (!p->isInit(i + k)) { ok = false; break; }
      if (ok) { uint64_t v = 0; memcpy(&v, p->d + i, n); return Val(v); }
    }
  }
  ER r = byteE(s, id, off + n - 1);
  for (int k = (int)n - 2; k >= 0; --k) r = P.Concat(r, byteE(s, id, off + k));
  return fromE(r);
}
static Val loadInt(State& s, const Val& a, unsigned bytes) {
  Ref r = resolve(s, a, bytes, false);
  if (!r.offE) return loadN(s, r.id, r.off, bytes);
  const Obj* o = s.mem.get(r.id);
  // stride detection: offE = k + c*stride...  use all offsets
  ER acc = nullptr; uint64_t size = o->size;
  uint64_t lo = 0, hi = size - bytes; uint64_t u = P.ub(r.offE); if (u < hi) hi = u;
  unsigned step = 1; { ER x = r.offE; if (x->op == E_CONCAT && x->b->op == E_CONST && x->b->c == 0) step = 1u << std::min<unsigned>(x->b->w, 3); else if (x->op == E_ZEXT && x->a->op == E_CONCAT && x->a->b->op == E_CONST && x->a->b->c == 0) step = 1u << std::min<unsigned>(x->a->b->w, 3); }
  if ((hi - lo) / step > 600) { uint64_t v = concretize(s, r.offE, "sym-offset"); return loadN(s, r.id, v, bytes); }
  for (uint64_t k = lo; k <= hi; k += step) {
    ER v = toE(loadN(s, r.id, k, bytes), bytes * 8);
    acc = acc ? P.Ite(P.Eq(r.offE, P.K(k, 64)), v, acc) : v;
  }
  return fromE(acc);
}
static void storeN(State& s, uint64_t id, uint64_t off, const Val& v, unsigned n) {
  Obj* o = s.mem.getw(id);
  if (!v.e) {
    uint64_t pi = off / PG; unsigned i = off % PG;
    if (i + n <= PG) { Page* p = Memory::pagew(o, pi); memcpy(p->d + i, &v.c, n); for (unsigned k = 0; k < n; ++k) p->setInit(i + k);
      if (p->hasSym) for (unsigned k = 0; k < n; ++k) p->sym[i + k] = nullptr; return; }
    for (unsigned k = 0; k < n; ++k) putByte(o, off + k, (uint8_t)(v.c >> (8 * k)));
    return;
  }
  ER e = v.e; if (e->w < n * 8) e = P.ZExt(e, n * 8);
  for (unsigned k = 0; k < n; ++k) putSym(o, off + k, P.Extract(e, 8 * k, 8));
}
static void storeInt(State& s, const Val& a, const Val& v, unsigned bytes) {
  Ref r = resolve(s, a, bytes, true);
  if (!r.offE) { storeN(s, r.id, r.off, v, bytes); return; }
  const Obj* o = s.mem.get(r.id); uint64_t hi = std::min<uint64_t>(o->size - bytes, P.ub(r.offE));
  if (bytes != 1 || hi > 300) { uint64_t x = concretize(s, r.offE, "sym-offset"); storeN(s, r.id, x, v, bytes); return; }
  ER e = toE(v, 8);
  for (uint64_t k = 0; k <= hi; ++k) { ER old = byteE(s, r.id, k); ER n = P.Ite(P.Eq(r.offE, P.K(k, 64)), e, old); if (n != old) putSym(s.mem.getw(r.id), k, n); }
}
static void copyBytes(State& s, uint64_t di, uint64_t doff, uint64_t si, uint64_t soff, uint64_t n) {
  if (!n) return;
  struct B { uint8_t c; ER e; uint8_t k; };
  const Obj* so = s.mem.get(si);
  // chunked page copy
  bool overlap = di == si;
  if (!overlap) {
    RC<Obj> keep; Obj* d = s.mem.getw(di); so = s.mem.get(si);
    uint64_t i = 0;
    while (i < n) {
      unsigned sp = (soff + i) % PG, dp = (doff + i) % PG; uint64_t len = std::min<uint64_t>({PG - sp, PG - dp, n - i});
      const Page* p = Memory::pager(so, (soff + i) / PG);
      if (p && !p->hasSym) {
        Page* q = Memory::pagew(d, (doff + i) / PG); memcpy(q->d + dp, p->d + sp, len);
        for (uint64_t k = 0; k < len; ++k) { if (p->isInit(sp + k)) q->setInit(dp + k); else q->clrInit(dp + k); if (q->hasSym) q->sym[dp + k] = nullptr; }
      } else if (!p && !so->zero) {
        if (Memory::pager(d, (doff + i) / PG)) for (uint64_t k = 0; k < len; ++k) putUninit(d, doff + i + k);
        else if (d->zero) for (uint64_t k = 0; k < len; ++k) putUninit(d, doff + i + k);
      } else {
        for (uint64_t k = 0; k < len; ++k) { uint8_t c; ER e; if (getByte(so, soff + i + k, c, e)) putByte(d, doff + i + k, c); else if (e) putSym(d, doff + i + k, e); else putUninit(d, doff + i + k); }
      }
      i += len;
    }
    return;
  }
  std::vector<B> t(n);
  for (uint64_t i = 0; i < n; ++i) { t[i].k = getByte(so, soff + i, t[i].c, t[i].e) ? 0 : t[i].e ? 1 : 2; }
  Obj* d = s.mem.getw(di);
  for (uint64_t i = 0; i < n; ++i) { if (t[i].k == 0) putByte(d, doff + i, t[i].c); else if (t[i].k == 1) putSym(d, doff + i, t[i].e); else putUninit(d, doff + i); }
}
static void doMemcpy(State& s, const Val& d, const Val& sr, const Val& n) {
  uint64_t len = conc(s, n, "memcpy-len"); if (!len) return;
  Val dd = d, ss = sr; dd = Val(conc(s, d, "memcpy-dst")); ss = Val(conc(s, sr, "memcpy-src"));
  Ref rs = resolve(s, ss, len, false), rd = resolve(s, dd, len, true);
  copyBytes(s, rd.id, rd.off, rs.id, rs.off, len);
}
static void doMemset(State& s, const Val& d, const Val& c, const Val& n) {
  uint64_t len = conc(s, n, "memset-len"); if (!len) return;
  Val dd(conc(s, d, "memset-dst")); Ref r = resolve(s, dd, len, true);
  Obj* o = s.mem.getw(r.id);
  if (!c.e && (uint8_t)c.c == 0 && r.off == 0 && len == o->size) { o->pages.clear(); o->zero = true; return; }
  if (!c.e) for (uint64_t i = 0; i < len; ++i) putByte(o, r.off + i, (uint8_t)c.c);
  else { ER e = P.Extract(c.e, 0, 8); for (uint64_t i = 0; i < len; ++i) putSym(o, r.off + i, e); }
}
static uint64_t heapAlloc(State& s, uint64_t n, bool zero, int fn) {
  if (n > (1ull << 31)) { fatalPath(s, "memory", "allocation of " + std::to_string(n) + " bytes"); }
  uint32_t id = s.mem.alloc(n, OK_HEAP, zero); Obj* o = s.mem.getw(id); o->allocFn = fn; return (uint64_t)id << 32;
}
static void heapFree(State& s, uint64_t a, int fn) {
  if (!a) return;
  const Obj* o = s.mem.get(a >> 32);
  if (!o || (a & 0xffffffff)) fatalPath(s, "memory", "free of invalid pointer");
  if (o->kind != OK_HEAP) fatalPath(s, "memory", "free of non-heap memory");
  if (!o->alive) fatalPath(s, "memory", "double free");
  if (o->allocFn != fn) fatalPath(s, "memory", "mismatched allocation/deallocation functions");
  if (!s.secretVars.empty()) {
    for (size_t pi = 0; pi < o->pages.size(); ++pi) { const Page* p = o->pages[pi].p; if (!p || !p->hasSym) continue;
      for (unsigned i = 0; i < PG; ++i) if (p->sym[i]) for (auto v : *p->sym[i]->vars) if (s.secretVars.count(v)) {
        // semantic confirmation: can the byte take a value that depends on the secret?
        ER e = p->sym[i]; uint64_t mv = P.eval(e, s.model->v); RC<ModelRC> m;
        int r = solve(s, P.Not(P.Eq(e, P.K(mv, 8))), &m);
        if (r == 1) fatalPath(s, "secret", "a block returned to the allocator still contains object data");
        break; } }
  }
  s.mem.kill(a >> 32);
}

// ------------------------------------------------------------------ constants
static str tiName(const Value* v) { return v->getName().str(); }
static int selId(const str& n) { auto it = tinfoIds.find(n); if (it != tinfoIds.end()) return it->second; int id = tinfoIds.size() + 1; tinfoIds[n] = id; return id; }
static Val evalConst(const Constant* c);
static unsigned tyBits(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = new std::vector<Val>(std::move(v)); return r; }
static Val zeroVal(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(zeroVal(st->getElementType(i))); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); ++i) v.push_back(zeroVal(at->getElementType())); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(zeroVal(vt->getElementType())); return mkAgg(v); }
  if (t->isIntegerTy(128)) return mkAgg({Val(0), Val(0)});
  return Val(0);
}
static Val binop(State* s, unsigned op, const Val& a, const Val& b, unsigned w);
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w);
static Val castOp(unsigned op, const Val& a, unsigned wf, unsigned wt);
static Val evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { APInt x = ci->getValue(); return mkAgg({Val(x.extractBitsAsZExtValue(64, 0)), Val(x.extractBitsAsZExtValue(ci->getBitWidth() - 64, 64))}); } return Val(ci->getZExtValue()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (c->getType()->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val(f.bitcastToAPInt().getZExtValue()); } return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* g = dyn_cast<GlobalAlias>(c)) return evalConst(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(3); } return Val(it->second); }
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val r;
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { std::vector<Val> v; for (auto& o : cs->operands()) v.push_back(evalConst(cast<Constant>(o))); r = mkAgg(v); }
  else if (auto* ca = dyn_cast<ConstantArray>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(evalConst(cast<Constant>(o))); r = mkAgg(v); }
  else if (auto* cv = dyn_cast<ConstantVector>(c)) { std::vector<Val> v; for (auto& o : cv->operands()) v.push_back(evalConst(cast<Constant>(o))); r = mkAgg(v); }
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(evalConst(cd->getElementAsConstant(i))); r = mkAgg(v); }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned op = ce->getOpcode();
    if (op == Instruction::GetElementPtr) {
      APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); exit(3); }
      r = Val(evalConst(ce->getOperand(0)).c + off.getSExtValue());
    } else if (Instruction::isCast(op)) r = castOp(op, evalConst(ce->getOperand(0)), tyBits(ce->getOperand(0)->getType()), tyBits(ce->getType()));
    else if (Instruction::isBinaryOp(op)) r = binop(nullptr, op, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), tyBits(ce->getType()));
    else if (op == Instruction::ICmp) r = icmp(ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), tyBits(ce->getOperand(0)->getType()));
    else { errs() << "const expr " << *ce << "\n"; exit(3); }
  } else { errs() << "unsupported constant " << *c << "\n"; exit(3); }
  constCache[c] = r; return r;
}
// ------------------------------------------------------------------ typed load/store
static Val loadTy(State& s, const Val& a, Type* t);
static Val addOff(const Val& a, uint64_t o) { if (!o) return a; if (a.e) return fromE(P.Add(a.e, P.K(o, 64))); return Val(a.c + o); }
static Val loadTy(State& s, const Val& a, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(s, addOff(a, sl->getElementOffset(i)), st->getElementType(i))); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); ++i) v.push_back(loadTy(s, addOff(a, i * es), at->getElementType())); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadTy(s, addOff(a, i * es), vt->getElementType())); return mkAgg(v); }
  if (t->isIntegerTy() && t->getIntegerBitWidth() == 128) return mkAgg({loadInt(s, a, 8), loadInt(s, addOff(a, 8), 8)});
  unsigned bits = tyBits(t), by = (bits + 7) / 8;
  if (by > 8 || by == 0) { errs() << "load type " << *t << "\n"; exit(3); }
  Val v;
  if (by == 3 || by == 5 || by == 6 || by == 7) { ER e = nullptr; for (int k = by - 1; k >= 0; --k) { Val x = loadInt(s, addOff(a, k), 1); ER xe = toE(x, 8); e = e ? P.Concat(e, xe) : xe; } v = fromE(e); }
  else v = loadInt(s, a, by);
  if (bits < by * 8) { if (v.e) v = fromE(P.Extract(v.e, 0, bits)); else v.c &= maskw(bits); }
  return v;
}
static void storeTy(State& s, const Val& a, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, addOff(a, sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) storeTy(s, addOff(a, i * es), (*v.agg)[i], at->getElementType()); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTy(s, addOff(a, i * es), (*v.agg)[i], vt->getElementType()); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() == 128) { storeInt(s, a, (*v.agg)[0], 8); storeInt(s, addOff(a, 8), (*v.agg)[1], 8); return; }
  unsigned bits = tyBits(t), by = (bits + 7) / 8;
  if (by > 8 || by == 0) { errs() << "store type " << *t << "\n"; exit(3); }
  if (by == 3 || by == 5 || by == 6 || by == 7) { for (unsigned k = 0; k < by; ++k) { Val x = v.e ? fromE(P.Extract(v.e, 8 * k, 8)) : Val((v.c >> (8 * k)) & 0xff); storeInt(s, addOff(a, k), x, 1); } return; }
  storeInt(s, a, v, by);
}
// ------------------------------------------------------------------ ALU
static Val binop(State* s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, r = 0;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : (x & maskw(w)) >> y; break;
    case Instruction::AShr: r = (uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)); break;
    case Instruction::UDiv: if (!y) fatalPath(*s, "arith", "division by zero"); r = x / y; break;
    case Instruction::URem: if (!y) fatalPath(*s, "arith", "division by zero"); r = x % y; break;
    case Instruction::SDiv: if (!y) fatalPath(*s, "arith", "division by zero"); r = sx64(y, w) == -1 ? 0 - x : (uint64_t)(sx64(x, w) / sx64(y, w)); break;
    case Instruction::SRem: if (!y) fatalPath(*s, "arith", "division by zero"); r = sx64(y, w) == -1 ? 0 : (uint64_t)(sx64(x, w) % sx64(y, w)); break;
    default: fprintf(stderr, "binop %u\n", op); exit(3);
    }
    return Val(r & maskw(w));
  }
  ER x = toE(a, w), y = toE(b, w), r;
  switch (op) {
  case Instruction::Add: r = P.Add(x, y); break; case Instruction::Sub: r = P.Sub(x, y); break; case Instruction::Mul: r = P.Mul(x, y); break;
  case Instruction::And: r = P.And(x, y); break; case Instruction::Or: r = P.Or(x, y); break; case Instruction::Xor: r = P.Xor(x, y); break;
  case Instruction::Shl: r = P.Shl(x, y); break; case Instruction::LShr: r = P.LShr(x, y); break; case Instruction::AShr: r = P.AShr(x, y); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    if (s) require(*s, P.Not(P.Eq(y, P.K(0, w))), "arith", "division by zero");
    r = op == Instruction::UDiv ? P.UDiv(x, y) : op == Instruction::URem ? P.URem(x, y) : op == Instruction::SDiv ? P.SDiv(x, y) : P.SRem(x, y); break;
  default: fprintf(stderr, "binop %u\n", op); exit(3);
  }
  return fromE(r);
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sx = sx64(x, w), sy = sx64(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y);
    case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y);
    case CmpInst::ICMP_SGT: return Val(sx > sy); case CmpInst::ICMP_SGE: return Val(sx >= sy); case CmpInst::ICMP_SLT: return Val(sx < sy); case CmpInst::ICMP_SLE: return Val(sx <= sy);
    }
  }
  ER x = toE(a, w), y = toE(b, w), r = nullptr;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = P.Eq(x, y); break; case CmpInst::ICMP_NE: r = P.Not(P.Eq(x, y)); break;
  case CmpInst::ICMP_UGT: r = P.Ult(y, x); break; case CmpInst::ICMP_UGE: r = P.Ule(y, x); break; case CmpInst::ICMP_ULT: r = P.Ult(x, y); break; case CmpInst::ICMP_ULE: r = P.Ule(x, y); break;
  case CmpInst::ICMP_SGT: r = P.Slt(y, x); break; case CmpInst::ICMP_SGE: r = P.Sle(y, x); break; case CmpInst::ICMP_SLT: r = P.Slt(x, y); break; case CmpInst::ICMP_SLE: r = P.Sle(x, y); break;
  }
  return fromE(r);
}
static Val castOp(unsigned op, const Val& a, unsigned wf, unsigned wt) {
  switch (op) {
  case Instruction::Trunc: if (a.e) return fromE(P.Extract(a.e, 0, wt)); return Val(a.c & maskw(wt));
  case Instruction::ZExt: if (a.e) return fromE(P.ZExt(a.e, wt)); return Val(a.c & maskw(wf));
  case Instruction::SExt: if (a.e) return fromE(P.SExt(a.e, wt)); return Val((uint64_t)sx64(a.c, wf) & maskw(wt));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (wf == wt) return a; if (wt < wf) return castOp(Instruction::Trunc, a, wf, wt); return castOp(Instruction::ZExt, a, wf, wt);
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
  }
  fprintf(stderr, "cast %u\n", op); exit(3);
}
static double asD(uint64_t c, Type* t) { if (t->isFloatTy()) { float f; uint32_t x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, Type* t) { if (t->isFloatTy()) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

#include "exec.inc"
