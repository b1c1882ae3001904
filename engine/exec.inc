// ------------------------------------------------------------------ function compilation
typedef int (*BuiltinFn)(State&, const CInst&, std::vector<Val>&, Val&); // 0 normal return, 1 control transferred
static std::unordered_map<str, int> builtinIdx; static std::vector<std::pair<str, BuiltinFn>> builtins;
static int findBuiltin(const str& n);

static CFunc* compileFn(Function* F) {
  auto it = cfuncs.find(F); if (it != cfuncs.end()) return it->second;
  CFunc* c = new CFunc; c->F = F; cfuncs[F] = c;
  for (auto& a : F->args()) c->ri[&a] = c->nregs++;
  int bi = 0; for (auto& b : *F) { c->bi[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy()) c->ri[&i] = c->nregs++; }
  c->b.resize(bi);
  auto opnd = [&](llvm::Value* v) { Opnd o; if (auto* k = dyn_cast<Constant>(v)) o.k = evalConst(k); else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) {} else o.reg = c->ri.at(v); return o; };
  bi = 0;
  for (auto& b : *F) {
    CBlock& cb = c->b[bi++]; cb.bb = &b;
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing || id == Intrinsic::prefetch) continue; }
      CInst ci; ci.I = &i; ci.op = i.getOpcode(); ci.ty = i.getType();
      if (!i.getType()->isVoidTy()) ci.dst = c->ri[&i];
      ci.w = tyBits(i.getType()); ci.vec = i.getType()->isVectorTy();
      switch (ci.op) {
      case Instruction::PHI: { auto* p = cast<PHINode>(&i); cb.nphi++; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) { ci.ops.push_back(opnd(p->getIncomingValue(k))); ci.idx.push_back(c->bi.at(p->getIncomingBlock(k))); } break; }
      case Instruction::Br: { auto* p = cast<BranchInst>(&i); if (p->isConditional()) { ci.ops.push_back(opnd(p->getCondition())); ci.t0 = c->bi.at(p->getSuccessor(0)); ci.t1 = c->bi.at(p->getSuccessor(1)); } else ci.t0 = c->bi.at(p->getSuccessor(0)); break; }
      case Instruction::Switch: { auto* p = cast<SwitchInst>(&i); ci.ops.push_back(opnd(p->getCondition())); ci.w2 = tyBits(p->getCondition()->getType()); ci.t0 = c->bi.at(p->getDefaultDest()); for (auto& cs : p->cases()) ci.cases.push_back({cs.getCaseValue()->getZExtValue(), c->bi.at(cs.getCaseSuccessor())}); break; }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(&i); ci.ops.push_back(opnd(g->getPointerOperand())); ci.scale.push_back(0);
        if (g->getType()->isVectorTy()) { errs() << "vector gep\n"; exit(3); }
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          llvm::Value* ix = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) { ci.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto* k = dyn_cast<ConstantInt>(ix)) { ci.off += k->getSExtValue() * (int64_t)es; continue; }
          ci.ops.push_back(opnd(ix)); ci.scale.push_back(es); ci.idx.push_back(tyBits(ix->getType()));
        } break; }
      case Instruction::Load: ci.ops.push_back(opnd(i.getOperand(0))); ci.atomic = cast<LoadInst>(&i)->isAtomic(); ci.bytes = (ci.w % 8 == 0 && (ci.w == 8 || ci.w == 16 || ci.w == 32 || ci.w == 64)) ? ci.w / 8 : 0; break;
      case Instruction::Store: { ci.ops.push_back(opnd(i.getOperand(0))); ci.ops.push_back(opnd(i.getOperand(1))); ci.atomic = cast<StoreInst>(&i)->isAtomic(); ci.ty = i.getOperand(0)->getType(); unsigned w = tyBits(ci.ty); ci.bytes = (w == 8 || w == 16 || w == 32 || w == 64) ? w / 8 : 0; break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb2 = cast<CallBase>(&i);
        for (auto& a : cb2->args()) { if (isa<MetadataAsValue>(a)) ci.ops.push_back(Opnd()); else ci.ops.push_back(opnd(a)); }
        llvm::Value* cv = cb2->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        if (auto* fn = dyn_cast<Function>(cv)) ci.callee = fn;
        else if (!isa<InlineAsm>(cv)) ci.ops.push_back(opnd(cv)); // last operand
        if (ci.op == Instruction::Invoke) { ci.t0 = c->bi.at(cast<InvokeInst>(&i)->getNormalDest()); ci.t1 = c->bi.at(cast<InvokeInst>(&i)->getUnwindDest()); }
        break; }
      case Instruction::ExtractValue: ci.ops.push_back(opnd(i.getOperand(0))); for (unsigned k : cast<ExtractValueInst>(&i)->indices()) ci.idx.push_back(k); break;
      case Instruction::InsertValue: ci.ops.push_back(opnd(i.getOperand(0))); ci.ops.push_back(opnd(i.getOperand(1))); for (unsigned k : cast<InsertValueInst>(&i)->indices()) ci.idx.push_back(k); break;
      case Instruction::ShuffleVector: { ci.ops.push_back(opnd(i.getOperand(0))); ci.ops.push_back(opnd(i.getOperand(1))); for (int k : cast<ShuffleVectorInst>(&i)->getShuffleMask()) ci.idx.push_back((unsigned)k); break; }
      case Instruction::LandingPad: break;
      case Instruction::ICmp: case Instruction::FCmp: ci.pred = cast<CmpInst>(&i)->getPredicate(); ci.w2 = tyBits(i.getOperand(0)->getType()->getScalarType()); ci.ops.push_back(opnd(i.getOperand(0))); ci.ops.push_back(opnd(i.getOperand(1))); break;
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: ci.atomic = true; for (auto& o : i.operands()) ci.ops.push_back(opnd(o)); break;
      case Instruction::Alloca: ci.ops.push_back(opnd(i.getOperand(0))); ci.off = DL->getTypeAllocSize(cast<AllocaInst>(&i)->getAllocatedType()); break;
      default: for (auto& o : i.operands()) ci.ops.push_back(opnd(o)); if (i.getNumOperands()) ci.w2 = tyBits(i.getOperand(0)->getType()->getScalarType()); break;
      }
      cb.in.push_back(std::move(ci));
    }
  }
  return c;
}
static inline const Val& getv(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.k; }
static void setReg(State& s, const CInst& ci, const Val& v) { if (ci.dst >= 0) F(s).regs[ci.dst] = v; }

static void jump(State& s, int t) {
  Frame& f = F(s); int from = f.bb; f.prev = from; f.bb = t; f.ip = 0;
  CBlock& b = f.f->b[t];
  if (b.nphi) {
    Val tmp[64]; std::vector<Val> big; Val* tv = tmp; if (b.nphi > 64) { big.resize(b.nphi); tv = big.data(); }
    for (unsigned i = 0; i < b.nphi; ++i) { CInst& p = b.in[i]; p.executed = true; unsigned k = 0; for (; k < p.idx.size(); ++k) if ((int)p.idx[k] == from) break; tv[i] = getv(f, p.ops[k]); }
    for (unsigned i = 0; i < b.nphi; ++i) f.regs[b.in[i].dst] = tv[i];
    f.ip = b.nphi;
  }
}
static void pushCall(State& s, Function* fn, const std::vector<Val>& args, int retDst, int special = 0, uint64_t sdata = 0) {
  CFunc* c = compileFn(fn); c->entered = true;
  if (s.th[s.cur].st.size() > 400) fatalPath(s, "recursion", "call depth exceeds 400");
  Frame nf; nf.f = c; nf.regs.resize(c->nregs); nf.retDst = retDst; nf.special = special; nf.sdata = sdata;
  unsigned na = fn->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); ++i) nf.regs[i] = args[i];
  // byval arguments
  for (unsigned i = 0; i < na; ++i) if (fn->getArg(i)->hasByValAttr()) {
    uint64_t sz = DL->getTypeAllocSize(fn->getArg(i)->getParamByValType()); uint32_t id = s.mem.alloc(sz, OK_STACK, false);
    Val d((uint64_t)id << 32); doMemcpy(s, d, args[i], Val(sz)); nf.regs[i] = d; nf.allocas.push_back(id); }
  s.th[s.cur].st.push_back(std::move(nf));
}
static void popFrame(State& s) { Thread& t = s.th[s.cur]; for (auto id : t.st.back().allocas) s.mem.freeStackObj(id); t.st.pop_back(); }
static void afterCall(State& s) { // advance past the call instruction in the top frame
  Frame& f = F(s); CInst& ci = f.f->b[f.bb].in[f.ip];
  if (ci.op == Instruction::Invoke) jump(s, ci.t0); else f.ip++;
}
// ------------------------------------------------------------------ exceptions
static const std::map<str, str> stdBases = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
  {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt12future_error", "_ZTISt11logic_error"}};
static std::unordered_map<uint64_t, const GlobalValue*> addr2g;
static bool tiDerives(const str& t, const str& base) {
  if (t == base) return true;
  auto it = stdBases.find(t); if (it != stdBases.end()) return tiDerives(it->second, base);
  GlobalVariable* g = M->getGlobalVariable(t, true);
  if (g && g->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
    for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (cs->getOperand(i)->getType()->isPointerTy()) { auto* b = cs->getOperand(i)->stripPointerCasts(); if (tiDerives(b->getName().str(), base)) return true; }
  return false;
}
static str tiNameAt(uint64_t a) { auto it = addr2g.find(a); return it == addr2g.end() ? "?" : it->second->getName().str(); }
// returns selector: >0 catch match, 0 cleanup only, -1 nothing
static int matchPad(LandingPadInst* lp, const str& ti) {
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    if (!lp->isCatch(i)) continue;
    Constant* c = lp->getClause(i);
    if (isa<ConstantPointerNull>(c)) return selId("");
    str n = c->stripPointerCasts()->getName().str();
    if (tiDerives(ti, n)) return selId(n);
  }
  return lp->isCleanup() ? 0 : -1;
}
static LandingPadInst* padOf(Frame& f) { CInst& ci = f.f->b[f.bb].in[f.ip]; if (ci.op != Instruction::Invoke) return nullptr; return cast<InvokeInst>(ci.I)->getLandingPadInst(); }
static void unwind(State& s) { // top frame is the one whose current instruction raised/propagates
  Thread& t = s.th[s.cur]; str ti = tiNameAt(t.cur.ti);
  bool found = false;
  for (int i = (int)t.st.size() - 1; i >= 0; --i) { if (auto* lp = padOf(t.st[i])) if (matchPad(lp, ti) > 0) { found = true; break; } }
  if (!found) fatalPath(s, "exception", "uncaught exception of type " + demangle(ti.size() > 4 ? "_Z" + ti.substr(4) : ti) );
  while (true) {
    Frame& f = t.st.back();
    if (auto* lp = padOf(f)) if (matchPad(lp, ti) >= 0) { int d = f.f->b[f.bb].in[f.ip].t1; jump(s, d); return; }
    popFrame(s);
    if (t.st.empty()) fatalPath(s, "exception", "uncaught exception (unwind)");
  }
}
static void throwExc(State& s, uint64_t obj, uint64_t ti, uint64_t dtor) { Thread& t = s.th[s.cur]; ExcRec e; e.obj = obj; e.ti = ti; e.dtor = dtor; t.cur = e; s.exObjs[obj] = e; unwind(s); }

// ------------------------------------------------------------------ scheduling
static void schedTo(State& s, int t) { s.cur = t; }
static std::vector<int> enabledThreads(State& s) { std::vector<int> r; for (auto& t : s.th) if (t.stat == T_RUN) r.push_back(t.id); return r; }
// choose one of `c` (forks); s continues with first, clones with others.  `cost`: non-first choices cost a preemption
static void chooseThread(State& s, const std::vector<int>& c, bool firstIsCur) {
  if (c.size() == 1) { s.cur = c[0]; return; }
  char b[32]; snprintf(b, sizeof b, "sched%u", s.nchoice++);
  ER v = P.var(b, 8); s.inputs.push_back({"sched", v});
  if (s.model->v.size() < P.varInfo.size()) { RC<ModelRC> m(new ModelRC); m->v = s.model->v; m->v.resize(P.varInfo.size(), 0); s.model = m; }
  // feasibility of every schedule value is decided by the solver like any other input
  for (size_t i = c.size() - 1; i >= 1; --i) {
    ER k = P.Eq(v, P.K(i, 8)); RC<ModelRC> m; if (solve(s, k, &m) != 1) continue;
    State* n = clone(s); n->model = m; addPC(*n, k); n->cur = c[i]; if (firstIsCur) n->preempt--; work.push_back(n);
  }
  assume(s, P.Eq(v, P.K(0, 8))); s.cur = c[0];
}
// returns true if the current thread may go on executing its visible instruction
static bool schedPoint(State& s) {
  if (s.schedMode == 0 || s.th.size() < 2) return true;
  Thread& t = s.th[s.cur];
  if (s.skipSched) { s.skipSched = false; return true; }
  ++S.schedPoints;
  std::vector<int> en = enabledThreads(s);
  if (en.size() < 2 || s.preempt <= 0) return true;
  std::vector<int> c; c.push_back(s.cur); for (int x : en) if (x != s.cur && !s.th[x].yielded) c.push_back(x);
  if (c.size() < 2) return true;
  char b[32]; snprintf(b, sizeof b, "sched%u", s.nchoice++);
  ER v = P.var(b, 8); s.inputs.push_back({"sched", v});
  for (size_t i = c.size() - 1; i >= 1; --i) {
    ER k = P.Eq(v, P.K(i, 8)); RC<ModelRC> m; if (solve(s, k, &m) != 1) continue;
    State* n = clone(s); n->model = m; addPC(*n, k); n->cur = c[i]; n->preempt--; work.push_back(n);
  }
  assume(s, P.Eq(v, P.K(0, 8)));
  (void)t; return true;
}
// current thread cannot continue: pick another
static void switchAway(State& s, bool spin) {
  std::vector<int> en; for (int x : enabledThreads(s)) if (x != s.cur) en.push_back(x);
  if (spin) { std::vector<int> e2; for (int x : en) if (!s.th[x].yielded) e2.push_back(x); if (!e2.empty()) en = e2; }
  if (en.empty()) for (auto& t : s.th) if (t.stat == T_WAIT && t.waitAddr == 0x1D1E) { t.stat = T_RUN; s.cur = t.id; return; }   // waits until nothing else can run
  if (en.empty()) {
    if (spin) { fatalPath(s, "liveness", "thread spins forever: no other thread can make progress"); }
    if (s.th[s.cur].stat == T_RUN) return;
    if (s.allowDeadlock) throw PathEnd{"deadlock-allowed"};
    fatalPath(s, "liveness", "deadlock: every thread is blocked");
  }
  if (s.schedMode == 0) { int best = -1; for (int x : en) if (x > s.cur) { best = x; break; } if (best < 0) best = en[0]; s.cur = best; return; }
  chooseThread(s, en, false);
}

// ------------------------------------------------------------------ builtins
static str cstr(State& s, const Val& a) { str r; uint64_t p = conc(s, a, "cstr"); for (int i = 0; i < 4096; ++i) { Val v = loadInt(s, Val(p + i), 1); if (v.e || !v.c) break; r += (char)v.c; } return r; }
static ER newInput(State& s, const str& n, unsigned w) {
  int k = s.nameCnt[n]++; ER v = P.var(k ? n + "#" + std::to_string(k) : n, w); s.inputs.push_back({n, v}); return v;
}
static ER tob(const Val& v, unsigned w) { return v.e ? P.Not(P.Eq(v.e, P.K(0, w))) : (v.c & maskw(w) ? P.T() : P.F()); }
#define BI(name) static int bi_##name(State& s, const CInst& ci, std::vector<Val>& a, Val& ret)
BI(nop) { return 0; }
BI(sqrt) { double d; uint64_t v = conc(s, a[0], "sqrt"); memcpy(&d, &v, 8); d = std::sqrt(d); memcpy(&v, &d, 8); ret = Val(v); return 0; }
BI(ret0arg) { if (!a.empty()) ret = a[0]; return 0; }
BI(malloc) { ret = Val(heapAlloc(s, conc(s, a[0], "malloc"), false, 1)); return 0; }
BI(calloc) { uint64_t x = conc(s, a[0], "calloc"), y = conc(s, a[1], "calloc"); ret = Val(heapAlloc(s, x * y, true, 1)); return 0; }
BI(free) { heapFree(s, conc(s, a[0], "free"), 1); return 0; }
BI(realloc) { uint64_t p = conc(s, a[0], "realloc"), n = conc(s, a[1], "realloc"); uint64_t q = heapAlloc(s, n, false, 1);
  if (p) { const Obj* o = s.mem.get(p >> 32); if (!o || !o->alive) fatalPath(s, "memory", "realloc of invalid pointer"); uint64_t k = std::min(n, o->size); copyBytes(s, q >> 32, 0, p >> 32, 0, k); heapFree(s, p, 1); } ret = Val(q); return 0; }
BI(new) { ret = Val(heapAlloc(s, conc(s, a[0], "new"), false, 2)); return 0; }
BI(newarr) { ret = Val(heapAlloc(s, conc(s, a[0], "new"), false, 3)); return 0; }
BI(del) { heapFree(s, conc(s, a[0], "delete"), 2); return 0; }
BI(delarr) { heapFree(s, conc(s, a[0], "delete"), 3); return 0; }
BI(memcpy) { doMemcpy(s, a[0], a[1], a[2]); ret = a[0]; return 0; }
BI(memset) { doMemset(s, a[0], a[1], a[2]); ret = a[0]; return 0; }
BI(memcmp) {
  uint64_t n = conc(s, a[2], "memcmp-len"); uint64_t p = conc(s, a[0], "p"), q = conc(s, a[1], "q"); ret = Val(0); if (!n) return 0;
  resolve(s, Val(p), n, false); resolve(s, Val(q), n, false);
  ER r = P.K(0, 32);
  for (int64_t i = (int64_t)n - 1; i >= 0; --i) { ER x = toE(loadInt(s, Val(p + i), 1), 8), y = toE(loadInt(s, Val(q + i), 1), 8);
    if (x == y) continue; ER d = P.Sub(P.ZExt(x, 32), P.ZExt(y, 32)); ER eq = P.Eq(x, y); r = P.Ite(eq, r, d); }
  ret = fromE(r); return 0; }
BI(bcmp) {
  uint64_t n = conc(s, a[2], "bcmp-len"); uint64_t p = conc(s, a[0], "p"), q = conc(s, a[1], "q"); ret = Val(0); if (!n) return 0;
  resolve(s, Val(p), n, false); resolve(s, Val(q), n, false); ER r = P.T();
  for (uint64_t i = 0; i < n; ++i) { ER x = toE(loadInt(s, Val(p + i), 1), 8), y = toE(loadInt(s, Val(q + i), 1), 8); r = P.And(P.Eq(x, y), r); if (r == P.F()) break; }
  ret = fromE(P.ZExt(P.Not(r), 32)); return 0; }
BI(abort) { fatalPath(s, "abort", "abort() called"); return 0; }
BI(terminate) { fatalPath(s, "terminate", "std::terminate called"); return 0; }
BI(exit) { fatalPath(s, "exit", "process exit requested"); return 0; }
BI(purevirt) { fatalPath(s, "abort", "pure virtual call"); return 0; }
BI(cxa_alloc) { uint64_t p = heapAlloc(s, conc(s, a[0], "exc"), true, 9); ret = Val(p); return 0; }
BI(cxa_freeexc) { s.exObjs.erase(a[0].c); heapFree(s, a[0].c, 9); return 0; }
BI(cxa_throw) { throwExc(s, a[0].c, a[1].c, a[2].c); return 1; }
BI(cxa_begin_catch) { Thread& t = s.th[s.cur]; ExcRec e = s.exObjs[a[0].c]; bool again = false; for (auto& c : t.caught) if (c.obj == e.obj) { c.handlers++; c.rethrown = false; again = true; } if (!again) { e.handlers = 1; e.rethrown = false; t.caught.push_back(e); } ret = a[0]; return 0; }
BI(cxa_end_catch) {
  Thread& t = s.th[s.cur]; if (t.caught.empty()) return 0;
  ExcRec& e = t.caught.back(); e.handlers--; if (e.handlers > 0) return 0;
  ExcRec x = e; t.caught.pop_back(); if (x.rethrown) return 0;
  s.exObjs.erase(x.obj);
  if (x.dtor) { auto it = addr2g.find(x.dtor); Function* fn = it == addr2g.end() ? nullptr : dyn_cast<Function>(const_cast<GlobalValue*>(it->second));
    if (fn && !fn->isDeclaration()) { pushCall(s, fn, {Val(x.obj)}, -1, 1, x.obj); return 1; } }
  heapFree(s, x.obj, 9); return 0; }
BI(cxa_rethrow) { Thread& t = s.th[s.cur]; if (t.caught.empty()) fatalPath(s, "terminate", "rethrow without exception"); ExcRec& e = t.caught.back(); e.rethrown = true; t.cur = e; unwind(s); return 1; }
BI(getexcptr) { ret = a[0]; return 0; }
BI(guard_acquire) { Val v = loadInt(s, a[0], 1); ret = Val(conc(s, v, "guard") ? 0 : 1); return 0; }
BI(guard_release) { storeInt(s, a[0], Val(1), 1); return 0; }
// --- harness API
BI(sym) { uint64_t p = conc(s, a[0], "sym"), n = conc(s, a[1], "sym"); str nm = cstr(s, a[2]); if (!n) return 0; Ref r = resolve(s, Val(p), n, true);
  for (uint64_t i = 0; i < n; ++i) { ER v = newInput(s, nm, 8); putSym(s.mem.getw(r.id), r.off + i, v); } return 0; }
BI(u64) { ret = fromE(newInput(s, cstr(s, a[0]), 64)); return 0; }
BI(u32) { ret = fromE(newInput(s, cstr(s, a[0]), 32)); return 0; }
BI(u16) { ret = fromE(newInput(s, cstr(s, a[0]), 16)); return 0; }
BI(u8) { ret = fromE(newInput(s, cstr(s, a[0]), 8)); return 0; }
BI(assume) { ER c = tob(a[0], 32); if (!assume(s, c)) { ++S.assumed; throw PathEnd{"assume"}; } return 0; }
BI(assert) { require(s, tob(a[0], 32), "assert", cstr(s, a[1])); return 0; }
BI(fail) { fatalPath(s, "assert", cstr(s, a[0])); return 0; }
BI(reach) { str l = cstr(s, a[0]); reached[l]++; if (s.labels.size() < 200) s.labels.push_back(l); return 0; }
struct Sample { std::vector<std::tuple<str, unsigned, uint64_t>> in; std::vector<str> labels; };
static std::vector<Sample> samples; static std::map<str, int> sampleSig;
static void takeSample(State& s) {
  if (samples.size() >= O.maxSamples) return; str sig; for (auto& l : s.labels) { sig += l; sig += '|'; } int k = sampleSig[sig]++; if (k >= 2 && (k & (k - 1))) return;
  Sample m; m.labels = s.labels; for (auto& in : s.inputs) m.in.push_back({in.name, in.e->w, P.eval(in.e, s.model->v)}); samples.push_back(m); }
BI(conc) { ret = Val(conc(s, a[0], "conc")); return 0; }
BI(choose) { // int sx_choose(int n, const char*)
  uint64_t n = conc(s, a[0], "n"); str nm = cstr(s, a[1]); if (n <= 1) { ret = Val(0); return 0; }
  ER v = newInput(s, nm, 8);
  if (s.model->v.size() < P.varInfo.size()) { RC<ModelRC> m(new ModelRC); m->v = s.model->v; m->v.resize(P.varInfo.size(), 0); s.model = m; }
  assume(s, P.Ult(v, P.K(n, 8)));
  Frame& f = F(s); int dst = ci.dst;
  for (uint64_t i = n - 1; i >= 1; --i) { ER k = P.Eq(v, P.K(i, 8)); RC<ModelRC> m; int r = solve(s, k, &m); if (r != 1) continue;
    State* t = clone(s); t->model = m; addPC(*t, k); if (dst >= 0) F(*t).regs[dst] = Val(i); afterCall(*t); t->depth++; work.push_back(t); }
  (void)f; assume(s, P.Eq(v, P.K(0, 8))); ret = Val(0); return 0; }
BI(stop) { throw PathEnd{"stop"}; }
BI(ok) { throw PathEnd{"ok"}; }
BI(heap_live) { ret = Val((uint64_t)s.mem.liveHeap); return 0; }
BI(alive) { uint64_t p = conc(s, a[0], "alive"); const Obj* o = s.mem.get(p >> 32); ret = Val(o && o->alive); return 0; }
BI(secret) { uint64_t p = conc(s, a[0], "sec"), n = conc(s, a[1], "sec"); for (uint64_t i = 0; i < n; ++i) { Val v = loadInt(s, Val(p + i), 1); if (v.e) for (auto x : *v.e->vars) s.secretVars.insert(x); } return 0; }
BI(param) { str n = cstr(s, a[0]); auto it = O.params.find(n); if (it != O.params.end()) ret = Val((uint64_t)it->second); else ret = a[1]; return 0; }
BI(is_sym) { ret = Val(a[0].e != nullptr); return 0; }
BI(peek) { if (!a[0].e) { ret = a[0]; return 0; } if (s.model->v.size() < P.varInfo.size()) { RC<ModelRC> m(new ModelRC); m->v = s.model->v; m->v.resize(P.varInfo.size(), 0); s.model = m; } ret = Val(P.eval(a[0].e, s.model->v)); return 0; }
BI(valid) { ER c = tob(a[0], 32); if (c->op == E_CONST) { ret = Val(c->c); return 0; } RC<ModelRC> m; ret = Val(solve(s, P.Not(c), &m) == 0); return 0; }
BI(dbg) { if (O.trace) fprintf(stderr, "[dbg] %s %s\n", cstr(s, a[0]).c_str(), a[1].e ? P.str(a[1].e, 5).c_str() : std::to_string((long long)a[1].c).c_str()); return 0; }
BI(ite) { ret = fromE(P.Ite(tob(a[0], 32), toE(a[1], 64), toE(a[2], 64))); return 0; }
// --- threads
BI(thread_create) {
  auto it = addr2g.find(conc(s, a[0], "fn")); Function* fn = dyn_cast<Function>(const_cast<GlobalValue*>(it->second));
  Thread t; t.id = s.th.size(); CFunc* c = compileFn(fn); Frame f; f.f = c; f.regs.resize(c->nregs); f.regs[0] = a[1]; t.st.push_back(f);
  s.th.push_back(t); ret = Val(t.id); return 0; }
BI(thread_self) { ret = Val(s.cur); return 0; }
BI(sched) { return 0; } // visible instruction: handled before the call
BI(wait) { uint64_t p = conc(s, a[0], "wait"); Thread& t = s.th[s.cur]; t.stat = T_WAIT; t.waitAddr = p; afterCall(s); switchAway(s, false); return 2; }
BI(wake) { uint64_t p = conc(s, a[0], "wake"), n = conc(s, a[1], "wake"); std::vector<int> w; for (auto& t : s.th) if (t.stat == T_WAIT && t.waitAddr == p) w.push_back(t.id);
  if (n == 1 && w.size() > 1 && s.schedMode) { ER v = newInput(s, "wakesel", 8);
    if (s.model->v.size() < P.varInfo.size()) { RC<ModelRC> m(new ModelRC); m->v = s.model->v; m->v.resize(P.varInfo.size(), 0); s.model = m; }
    for (size_t i = w.size() - 1; i >= 1; --i) { ER k = P.Eq(v, P.K(i, 8)); RC<ModelRC> m; if (solve(s, k, &m) != 1) continue; State* q = clone(s); q->model = m; addPC(*q, k); q->th[w[i]].stat = T_RUN; afterCall(*q); work.push_back(q); }
    assume(s, P.Eq(v, P.K(0, 8))); s.th[w[0]].stat = T_RUN; return 0; }
  size_t k = 0; for (int x : w) { if (n && k++ >= n) break; s.th[x].stat = T_RUN; } ret = Val(w.size()); return 0; }
BI(yield) { if (s.th.size() > 1) { s.th[s.cur].yielded = true; afterCall(s); std::vector<int> en = enabledThreads(s); if (en.size() > 1) switchAway(s, true); return 2; } return 0; }
BI(nwait) { uint64_t n = 0; for (auto& t : s.th) if (t.id != s.cur && t.stat == T_RUN) ++n; ret = Val(n); return 0; }
BI(sched_mode) { s.schedMode = conc(s, a[0], "m"); s.preempt = conc(s, a[1], "p"); return 0; }
BI(allow_deadlock) { s.allowDeadlock = conc(s, a[0], "m"); return 0; }
BI(vararg) { uint64_t i = conc(s, a[0], "vararg"); Frame& f = F(s); if (i >= f.va.size()) fatalPath(s, "memory", "missing variadic argument"); ret = f.va[i]; return 0; }
BI(pause) { if (s.th.size() > 1) { s.th[s.cur].yielded = true; afterCall(s); switchAway(s, true); return 2; } fatalPath(s, "liveness", "single thread spins forever"); return 0; }
BI(undef) { str n = ci.callee ? ci.callee->getName().str() : "?"; undefCalled.insert(n); ++incomplete["undefined function " + n]; if (O.trace) fprintf(stderr, "undefined function %s (%s) at %s\n", n.c_str(), demangle(n).c_str(), curLoc(s).c_str()); throw PathEnd{"undefined"}; }
BI(emptystr) { uint64_t p = conc(s, a[0], "str"); storeInt(s, Val(p), Val(p + 16), 8); storeInt(s, Val(p + 8), Val(0), 8); storeInt(s, Val(p + 16), Val(0), 1); return 0; }
static uint64_t vtAddr(const char* n) { GlobalVariable* g = M->getGlobalVariable(n, true); if (!g) return 0; auto it = gaddr.find(g); return it == gaddr.end() ? 0 : it->second; }
BI(excctor) { // std exception constructors: set the vptr
  str n = ci.callee->getName().str(); str cls; // _ZNSt13runtime_errorC1E...
  size_t p = n.find("St"), q = n.rfind("C"); (void)q; size_t i = p + 2; unsigned len = 0; while (i < n.size() && isdigit(n[i])) len = len * 10 + (n[i++] - '0'); str base = n.substr(p, (i - p) + len);
  uint64_t vt = vtAddr(("_ZTV" + base).c_str()); storeInt(s, a[0], Val(vt ? vt + 16 : 0), 8);
  Ref r = resolve(s, a[0], 8, true); Obj* o = s.mem.getw(r.id); if (o->size >= r.off + 16) storeInt(s, addOff(a[0], 8), Val(0), 8); return 0; }

static struct { const char* n; BuiltinFn f; } BT[] = {
  {"malloc", bi_malloc}, {"sqrt", bi_sqrt}, {"calloc", bi_calloc}, {"free", bi_free}, {"realloc", bi_realloc}, {"tc_malloc", bi_malloc}, {"tc_free", bi_free},
  {"_Znwm", bi_new}, {"_Znam", bi_newarr}, {"_ZnwmSt11align_val_t", bi_new}, {"_ZnamSt11align_val_t", bi_newarr}, {"_ZnwmRKSt9nothrow_t", bi_new}, {"_ZnamRKSt9nothrow_t", bi_newarr},
  {"_ZdlPv", bi_del}, {"_ZdlPvm", bi_del}, {"_ZdlPvSt11align_val_t", bi_del}, {"_ZdlPvmSt11align_val_t", bi_del}, {"_ZdaPv", bi_delarr}, {"_ZdaPvm", bi_delarr}, {"_ZdaPvSt11align_val_t", bi_delarr}, {"_ZdlPvRKSt9nothrow_t", bi_del},
  {"memcpy", bi_memcpy}, {"memmove", bi_memcpy}, {"memset", bi_memset}, {"memcmp", bi_memcmp}, {"bcmp", bi_bcmp},
  {"abort", bi_abort}, {"_ZSt9terminatev", bi_terminate}, {"__clang_call_terminate", bi_terminate}, {"exit", bi_exit}, {"_exit", bi_exit}, {"quick_exit", bi_exit}, {"__cxa_pure_virtual", bi_purevirt}, {"__assert_fail", bi_abort}, {"__stack_chk_fail", bi_abort},
  {"__cxa_allocate_exception", bi_cxa_alloc}, {"__cxa_free_exception", bi_cxa_freeexc}, {"__cxa_throw", bi_cxa_throw}, {"__cxa_begin_catch", bi_cxa_begin_catch}, {"__cxa_end_catch", bi_cxa_end_catch}, {"__cxa_rethrow", bi_cxa_rethrow}, {"__cxa_get_exception_ptr", bi_getexcptr},
  {"__cxa_guard_acquire", bi_guard_acquire}, {"__cxa_guard_release", bi_guard_release}, {"__cxa_guard_abort", bi_nop}, {"__cxa_atexit", bi_nop}, {"__cxa_thread_atexit", bi_nop}, {"atexit", bi_nop},
  {"sx_sym", bi_sym}, {"sx_u64", bi_u64}, {"sx_u32", bi_u32}, {"sx_u16", bi_u16}, {"sx_u8", bi_u8}, {"sx_assume", bi_assume}, {"sx_assert", bi_assert}, {"sx_fail", bi_fail}, {"sx_reach", bi_reach}, {"sx_conc", bi_conc}, {"sx_choose", bi_choose}, {"sxrt_vararg", bi_vararg},
  {"sx_stop", bi_stop}, {"sx_ok", bi_ok}, {"sx_heap_live", bi_heap_live}, {"sx_alive", bi_alive}, {"sx_secret", bi_secret}, {"sx_param", bi_param}, {"sx_is_sym", bi_is_sym}, {"sx_valid", bi_valid}, {"sx_peek", bi_peek}, {"sx_dbg", bi_dbg}, {"sx_ite", bi_ite},
  {"sx_thread_create", bi_thread_create}, {"sx_thread_self", bi_thread_self}, {"sx_sched", bi_sched}, {"sx_wait", bi_wait}, {"sx_wake", bi_wake}, {"sx_yield", bi_yield}, {"sx_nrunnable", bi_nwait}, {"sx_sched_mode", bi_sched_mode}, {"sx_allow_deadlock", bi_allow_deadlock}, {"sx_pause", bi_pause},
};
static BuiltinFn patternBuiltin(const str& n) {
  auto has = [&](const char* p) { return n.find(p) != str::npos; };
  // iostream machinery: formatting of log/diagnostic text only
  if (n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 6, "_ZNSi") == 0 || n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 6, "_ZNSol") == 0) return bi_ret0arg;
  if (has("basic_ostringstream") || has("basic_stringstream") || has("basic_stringbuf") || has("basic_ostream") || has("_ZSt4endl")) { if (has("3strEv")) return bi_emptystr; return bi_ret0arg; }
  if (n.compare(0, 13, "_ZNSt8ios_base") == 0 || has("basic_ios") || has("ios_base")) return bi_ret0arg;
  if (n.compare(0, 5, "_ZNSt") == 0 && (has("_errorC") || has("out_of_rangeC") || has("invalid_argumentC") || has("exceptionC") || has("bad_allocC"))) return bi_excctor;
  if (n.compare(0, 5, "_ZNSt") == 0 && (has("_errorD") || has("out_of_rangeD") || has("invalid_argumentD") || has("exceptionD") || has("bad_allocD") || has("bad_function_callD"))) return bi_nop;
  return nullptr;
}
static int findBuiltin(const str& n) {
  auto it = builtinIdx.find(n); if (it != builtinIdx.end()) return it->second;
  BuiltinFn f = patternBuiltin(n); if (!f) f = bi_undef;
  int k = builtins.size(); builtins.push_back({n, f}); builtinIdx[n] = k; return k;
}
static bool isVisibleBuiltin(const str& n) { return n == "sx_sched"; }

static ER minmax(ER a, ER b, ER c) { return P.Ite(c, a, b); }
static bool intrinsic(State& s, CInst& ci, std::vector<Val>& a, Val& ret) {
  auto* ii = cast<CallBase>(ci.I); unsigned w = ci.w; unsigned id = ci.callee->getIntrinsicID();
  if (ci.vec) { // lane-wise for simple ones
    std::vector<Val> r; auto* vt = cast<FixedVectorType>(ci.ty); unsigned lw = tyBits(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); ++i) { ER x = toE((*a[0].agg)[i], lw), y = a.size() > 1 && a[1].agg ? toE((*a[1].agg)[i], lw) : x;
      switch (id) { case Intrinsic::umin: r.push_back(fromE(minmax(x, y, P.Ult(x, y)))); break; case Intrinsic::umax: r.push_back(fromE(minmax(y, x, P.Ult(x, y)))); break; default: errs() << "vector intrinsic " << *ci.I << "\n"; exit(3); } }
    ret = mkAgg(r); return true; }
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: doMemcpy(s, a[0], a[1], a[2]); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(s, a[0], a[1], a[2]); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: ret = a[0]; return true;
  case Intrinsic::umin: { ER x = toE(a[0], w), y = toE(a[1], w); ret = fromE(minmax(x, y, P.Ult(x, y))); return true; }
  case Intrinsic::umax: { ER x = toE(a[0], w), y = toE(a[1], w); ret = fromE(minmax(y, x, P.Ult(x, y))); return true; }
  case Intrinsic::smin: { ER x = toE(a[0], w), y = toE(a[1], w); ret = fromE(minmax(x, y, P.Slt(x, y))); return true; }
  case Intrinsic::smax: { ER x = toE(a[0], w), y = toE(a[1], w); ret = fromE(minmax(y, x, P.Slt(x, y))); return true; }
  case Intrinsic::abs: { ER x = toE(a[0], w); ret = fromE(P.Ite(P.Slt(x, P.K(0, w)), P.Sub(P.K(0, w), x), x)); return true; }
  case Intrinsic::uadd_sat: { ER x = toE(a[0], w), y = toE(a[1], w); ER r = P.Add(x, y); ret = fromE(P.Ite(P.Ult(r, x), P.K(~0ull, w), r)); return true; }
  case Intrinsic::usub_sat: { ER x = toE(a[0], w), y = toE(a[1], w); ret = fromE(P.Ite(P.Ult(x, y), P.K(0, w), P.Sub(x, y))); return true; }
  case Intrinsic::bswap: { ER x = toE(a[0], w); ER r = P.Extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = P.Concat(r, P.Extract(x, i, 8)); ret = fromE(r); return true; }
  case Intrinsic::ctpop: { uint64_t v = conc(s, a[0], "ctpop"); ret = Val(__builtin_popcountll(v & maskw(w))); return true; }
  case Intrinsic::ctlz: { ER x = toE(a[0], w); ER r = P.K(w, w); for (unsigned i = 0; i < w; ++i) r = P.Ite(P.Eq(P.Extract(x, i, 1), P.K(1, 1)), P.K(w - 1 - i, w), r); ret = fromE(r); return true; }
  case Intrinsic::cttz: { ER x = toE(a[0], w); ER r = P.K(w, w); for (int i = w - 1; i >= 0; --i) r = P.Ite(P.Eq(P.Extract(x, i, 1), P.K(1, 1)), P.K(i, w), r); ret = fromE(r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    ER x = toE(a[0], w), y = toE(a[1], w); uint64_t k = conc(s, a[2], "fsh") % w; if (id == Intrinsic::fshr) k = (w - k) % w;
    if (k == 0) { ret = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
    ret = fromE(P.Concat(P.Extract(x, 0, w - k), P.Extract(y, w - k, k))); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = tyBits(ii->getArgOperand(0)->getType()); ER x = toE(a[0], ww), y = toE(a[1], ww), r, o;
    ER z = P.K(0, ww);
    if (id == Intrinsic::uadd_with_overflow) { r = P.Add(x, y); o = P.Ult(r, x); }
    else if (id == Intrinsic::usub_with_overflow) { r = P.Sub(x, y); o = P.Ult(x, y); }
    else if (id == Intrinsic::umul_with_overflow) { r = P.Mul(x, y); if (x->op == E_CONST && y->op != E_CONST) std::swap(x, y); if (y->op == E_CONST) { o = y->c == 0 ? P.F() : P.Ult(P.K(maskw(ww) / y->c, ww), x); } else { o = P.And(P.Not(P.Eq(y, z)), P.Not(P.Eq(P.UDiv(r, P.Ite(P.Eq(y, z), P.K(1, ww), y)), x))); } }
    else if (id == Intrinsic::sadd_with_overflow) { r = P.Add(x, y); ER nx = P.Slt(x, z), ny = P.Slt(y, z), nr = P.Slt(r, z); o = P.And(P.Eq(nx, ny), P.Not(P.Eq(nx, nr))); }
    else if (id == Intrinsic::ssub_with_overflow) { r = P.Sub(x, y); ER nx = P.Slt(x, z), ny = P.Slt(y, z), nr = P.Slt(r, z); o = P.And(P.Not(P.Eq(nx, ny)), P.Not(P.Eq(nx, nr))); }
    else { r = P.Mul(x, y); if (ww <= 32) { ER xx = P.SExt(x, 64), yy = P.SExt(y, 64); ER rr = P.Mul(xx, yy); o = P.Not(P.Eq(rr, P.SExt(r, 64))); } else { uint64_t cx = concretize(s, x, "smul"), cy = concretize(s, y, "smul"); int64_t q; o = P.K(__builtin_mul_overflow((int64_t)cx, (int64_t)cy, &q), 1); r = P.K(q, ww); } }
    ret = mkAgg({fromE(r), fromE(o)}); return true; }
  case Intrinsic::objectsize: ret = Val(~0ull & maskw(w)); return true;
  case Intrinsic::is_constant: ret = Val(0); return true;
  case Intrinsic::stacksave: ret = Val(0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fatalPath(s, "abort", "trap"); return true;
  case Intrinsic::eh_typeid_for: { auto* c = cast<Constant>(ii->getArgOperand(0)); ret = Val(isa<ConstantPointerNull>(c) ? selId("") : selId(c->stripPointerCasts()->getName().str())); return true; }
  case Intrinsic::threadlocal_address: {
    uint64_t g = a[0].c; auto& tls = s.th[s.cur].tls; auto it = tls.find(g);
    if (it == tls.end()) { const Obj* o = s.mem.get(g >> 32); uint32_t n = s.mem.alloc(o->size, OK_TLS, o->zero); s.mem.getw(n)->pages = s.mem.get(g >> 32)->pages; it = tls.emplace(g, (uint64_t)n << 32).first; }
    ret = Val(it->second); return true; }
  case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: ++incomplete["va_start"]; throw PathEnd{"va_start"};
  case Intrinsic::x86_sse2_pause: return false;
  case Intrinsic::rint: case Intrinsic::nearbyint: ret = Val(fromD(std::nearbyint(asD(a[0].c, ci.ty)), ci.ty)); return true;
  case Intrinsic::sqrt: ret = Val(fromD(std::sqrt(asD(a[0].c, ci.ty)), ci.ty)); return true;
  case Intrinsic::fmuladd: { Type* t = ci.ty; ret = Val(fromD(asD(a[0].c, t) * asD(a[1].c, t) + asD(a[2].c, t), t)); return true; }
  case Intrinsic::ceil: ret = Val(fromD(std::ceil(asD(a[0].c, ci.ty)), ci.ty)); return true;
  case Intrinsic::floor: ret = Val(fromD(std::floor(asD(a[0].c, ci.ty)), ci.ty)); return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_xor: {
    ER r = nullptr; for (auto& x : *a[0].agg) { ER e = toE(x, w); if (!r) r = e; else switch (id) { case Intrinsic::vector_reduce_add: r = P.Add(r, e); break; case Intrinsic::vector_reduce_or: r = P.Or(r, e); break; case Intrinsic::vector_reduce_and: r = P.And(r, e); break; case Intrinsic::vector_reduce_xor: r = P.Xor(r, e); break; default: r = P.Ite(P.Ult(r, e), e, r); } }
    ret = fromE(r); return true; }
  default: errs() << "intrinsic not supported: " << *ci.I << "\n"; ++incomplete["intrinsic " + ci.callee->getName().str()]; throw PathEnd{"intrinsic"};
  }
}

static void doCall(State& s, CInst& ci) {
  Frame& f = F(s);
  std::vector<Val> a; a.reserve(ci.ops.size()); for (auto& o : ci.ops) a.push_back(getv(f, o));
  Function* fn = ci.callee;
  if (!fn) {
    if (cast<CallBase>(ci.I)->isInlineAsm()) {
      str as = cast<InlineAsm>(cast<CallBase>(ci.I)->getCalledOperand())->getAsmString();
      if (as.find("nop") != str::npos || as.find("pause") != str::npos) { Val r; if (s.schedMode || s.th.size() > 1) { bi_pause(s, ci, a, r); return; } }
      if (ci.dst >= 0) { ++incomplete["inline asm with result"]; throw PathEnd{"asm"}; }
      afterCall(s); return; }
    uint64_t p = conc(s, a.back(), "fnptr"); a.pop_back();
    auto it = addr2g.find(p); fn = it == addr2g.end() ? nullptr : dyn_cast<Function>(const_cast<GlobalValue*>(it->second));
    if (!fn) fatalPath(s, "memory", "call through invalid function pointer");
  }
  if (fn->isDeclaration()) {
    Val ret;
    if (fn->isIntrinsic()) {
      if (fn->getIntrinsicID() == Intrinsic::x86_sse2_pause) { if (bi_pause(s, ci, a, ret) == 0) afterCall(s); return; }
      CInst* c = &ci; CInst tmp; if (!ci.callee) { tmp = ci; tmp.callee = fn; c = &tmp; }
      intrinsic(s, *c, a, ret); setReg(s, ci, ret); afterCall(s); return; }
    int b = ci.callee && ci.builtin >= 0 ? ci.builtin : findBuiltin(fn->getName().str()); if (ci.callee) ci.builtin = b;
    CInst* c = &ci; CInst tmp; if (!ci.callee) { tmp = ci; tmp.callee = fn; c = &tmp; }
    if (isVisibleBuiltin(builtins[b].first)) schedPoint(s);
    // schedPoint may have forked; current continues
    int r = builtins[b].second(s, *c, a, ret);
    if (r == 0) { if (ci.dst >= 0) { if (!ret.e && !ret.agg && ci.w) ret.c &= maskw(ci.w); if (!ret.e && !ret.agg && !ci.w) ret = zeroVal(ci.ty); setReg(s, ci, ret); } afterCall(s); }
    return;
  }
  pushCall(s, fn, a, ci.dst);
  if (fn->isVarArg()) { auto* cb = cast<CallBase>(ci.I); for (unsigned i = fn->arg_size(); i < cb->arg_size(); ++i) { Val v = a[i]; unsigned w = tyBits(cb->getArgOperand(i)->getType()); if (v.e && w < 64) v = fromE(P.ZExt(v.e, 64)); F(s).va.push_back(v); } }
}
static void doRet(State& s, Val v, bool has) {
  Thread& t = s.th[s.cur]; int rd = t.st.back().retDst, sp = t.st.back().special; uint64_t sd = t.st.back().sdata;
  popFrame(s);
  if (sp == 1) heapFree(s, sd, 9);
  if (t.st.empty()) { t.stat = T_DONE; if (s.cur == 0) throw PathEnd{"done"}; 
    // wake joiners (they wait on an engine-private address)
    uint64_t key = 0x7000000000ull + t.id; for (auto& x : s.th) if (x.stat == T_WAIT && x.waitAddr == key) x.stat = T_RUN;
    switchAway(s, false); return; }
  if (rd >= 0 && has) t.st.back().regs[rd] = v;
  afterCall(s);
}
static bool branchFork(State& s, ER c, int& taken) { // returns true; taken = 1/0 for s, clone pushed for the other when feasible (caller handles)
  uint64_t mv = P.eval(c, s.model->v); ER mine = mv ? c : P.Not(c), other = mv ? P.Not(c) : c;
  RC<ModelRC> m; int r = solve(s, other, &m); if (r == -1) ++incomplete["solver-unknown"];
  taken = mv ? 1 : 0;
  if (r == 1) { State* n = clone(s); n->model = m; addPC(*n, other); n->depth++; addPC(s, mine); work.push_back(n); return true; }
  return false;
}
static void noteVisible(State& s) { for (auto& t : s.th) if (t.id != s.cur) t.yielded = false; }

static Val laneBin(State& s, unsigned op, const Val& a, const Val& b, Type* t) { std::vector<Val> r; unsigned w = tyBits(t->getScalarType()); for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(binop(&s, op, (*a.agg)[i], (*b.agg)[i], w)); return mkAgg(r); }

static void step(State& s) {
  Frame& f = F(s); CInst& ci = f.f->b[f.bb].in[f.ip]; ci.executed = true;
  ++S.inst; ++s.inst;
  switch (ci.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    const Val &x = getv(f, ci.ops[0]), &y = getv(f, ci.ops[1]);
    if (ci.ty->isIntegerTy(128)) { // only what appears in practice: concrete or zext-mul patterns
      auto g = [&](const Val& v) { if (!v.agg) return (unsigned __int128)conc(s, v, "i128"); uint64_t lo = conc(s, (*v.agg)[0], "i128"), hi = conc(s, (*v.agg)[1], "i128"); return ((unsigned __int128)hi << 64) | lo; };
      unsigned __int128 p = g(x), q = g(y), r = 0;
      switch (ci.op) { case Instruction::Add: r = p + q; break; case Instruction::Sub: r = p - q; break; case Instruction::Mul: r = p * q; break; case Instruction::And: r = p & q; break; case Instruction::Or: r = p | q; break; case Instruction::Shl: r = p << (int)q; break; case Instruction::LShr: r = p >> (int)q; break; default: errs() << "i128 op\n"; exit(3); }
      f.regs[ci.dst] = mkAgg({Val((uint64_t)r), Val((uint64_t)(r >> 64))}); f.ip++; return; }
    f.regs[ci.dst] = ci.vec ? laneBin(s, ci.op, x, y, ci.ty) : binop(&s, ci.op, x, y, ci.w); f.ip++; return; }
  case Instruction::ICmp: {
    const Val &x = getv(f, ci.ops[0]), &y = getv(f, ci.ops[1]);
    if (ci.vec) { std::vector<Val> r; for (size_t i = 0; i < x.agg->size(); ++i) r.push_back(icmp(ci.pred, (*x.agg)[i], (*y.agg)[i], ci.w2)); f.regs[ci.dst] = mkAgg(r); f.ip++; return; }
    if (x.agg) { Val l = icmp(CmpInst::ICMP_EQ, (*x.agg)[0], (*y.agg)[0], 64), h = icmp(CmpInst::ICMP_EQ, (*x.agg)[1], (*y.agg)[1], 64); ER e = P.And(toE(l, 1), toE(h, 1));
      if (ci.pred == CmpInst::ICMP_EQ) {} else if (ci.pred == CmpInst::ICMP_NE) e = P.Not(e); else { uint64_t xh = conc(s, (*x.agg)[1], "i128"), yh = conc(s, (*y.agg)[1], "i128"), xl = conc(s, (*x.agg)[0], "i128"), yl = conc(s, (*y.agg)[0], "i128"); unsigned __int128 p = ((unsigned __int128)xh << 64) | xl, q = ((unsigned __int128)yh << 64) | yl; bool r = ci.pred == CmpInst::ICMP_UGT ? p > q : ci.pred == CmpInst::ICMP_UGE ? p >= q : ci.pred == CmpInst::ICMP_ULT ? p < q : p <= q; e = P.K(r, 1); }
      f.regs[ci.dst] = fromE(e); f.ip++; return; }
    f.regs[ci.dst] = icmp(ci.pred, x, y, ci.w2); f.ip++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
    const Val& x = getv(f, ci.ops[0]);
    if (ci.vec && x.agg && ci.op != Instruction::BitCast) { std::vector<Val> r; unsigned w = tyBits(ci.ty->getScalarType()); for (auto& v : *x.agg) r.push_back(castOp(ci.op, v, ci.w2, w)); f.regs[ci.dst] = mkAgg(r); f.ip++; return; }
    if (ci.ty->isIntegerTy(128)) { f.regs[ci.dst] = mkAgg({x, Val(0)}); if (ci.op == Instruction::SExt) { errs() << "sext i128\n"; exit(3); } f.ip++; return; }
    if (x.agg && ci.op == Instruction::Trunc) { f.regs[ci.dst] = ci.w == 64 ? (*x.agg)[0] : castOp(ci.op, (*x.agg)[0], 64, ci.w); f.ip++; return; }
    if (ci.op == Instruction::BitCast && (ci.vec || x.agg)) { // vector<->scalar: go through bytes
      Type* from = ci.I->getOperand(0)->getType(); uint32_t id = s.mem.alloc(DL->getTypeStoreSize(from), OK_STACK, true); Val p((uint64_t)id << 32); storeTy(s, p, x, from); Val r = loadTy(s, p, ci.ty); s.mem.freeStackObj(id); f.regs[ci.dst] = r; f.ip++; return; }
    f.regs[ci.dst] = castOp(ci.op, x, ci.w2, ci.w); f.ip++; return; }
  case Instruction::Freeze: f.regs[ci.dst] = getv(f, ci.ops[0]); f.ip++; return;
  case Instruction::Select: {
    const Val& c = getv(f, ci.ops[0]);
    if (c.agg) { const Val &x = getv(f, ci.ops[1]), &y = getv(f, ci.ops[2]); std::vector<Val> r; unsigned w = tyBits(ci.ty->getScalarType()); for (size_t i = 0; i < c.agg->size(); ++i) r.push_back(fromE(P.Ite(toE((*c.agg)[i], 1), toE((*x.agg)[i], w), toE((*y.agg)[i], w)))); f.regs[ci.dst] = mkAgg(r); f.ip++; return; }
    if (!c.e) f.regs[ci.dst] = getv(f, ci.ops[c.c & 1 ? 1 : 2]);
    else { const Val &x = getv(f, ci.ops[1]), &y = getv(f, ci.ops[2]); if (x.agg || y.agg || !ci.w) { uint64_t v = concretize(s, c.e, "select"); f.regs[ci.dst] = getv(f, ci.ops[v ? 1 : 2]); } else f.regs[ci.dst] = fromE(P.Ite(c.e, toE(x, ci.w), toE(y, ci.w))); }
    f.ip++; return; }
  case Instruction::GetElementPtr: {
    const Val& b = getv(f, ci.ops[0]); uint64_t c = ci.off; ER e = b.e; if (!e) c += b.c;
    for (size_t i = 1; i < ci.ops.size(); ++i) { const Val& x = getv(f, ci.ops[i]); unsigned w = ci.idx[i - 1]; if (x.e) { ER t = P.Mul(P.SExt(x.e, 64), P.K(ci.scale[i], 64)); e = e ? P.Add(e, t) : t; } else c += (uint64_t)sx64(x.c, w) * ci.scale[i]; }
    if (e) f.regs[ci.dst] = fromE(P.Add(e, P.K(c, 64))); else f.regs[ci.dst] = Val(c);
    f.ip++; return; }
  case Instruction::Load: {
    if (ci.atomic && s.th.size() > 1) {
      schedPoint(s); noteVisible(s);
      Val a = getv(F(s), ci.ops[0]); Val v = ci.bytes ? loadInt(s, a, ci.bytes) : loadTy(s, a, ci.ty); Thread& t = s.th[s.cur];
      if (!a.e && !v.e) {
        if (t.spinI == &ci && t.spinAddr == a.c && t.spinVal == v.c) { if (++t.spinN >= (s.schedMode ? O.spin : 500u)) { t.spinN = 0; F(s).regs[ci.dst] = v; F(s).ip++; t.yielded = true; switchAway(s, true); return; } }
        else { t.spinI = &ci; t.spinAddr = a.c; t.spinVal = v.c; t.spinN = 0; }
      }
      F(s).regs[ci.dst] = v; F(s).ip++; return;
    }
    const Val& a = getv(f, ci.ops[0]);
    Val v = ci.bytes ? loadInt(s, a, ci.bytes) : loadTy(s, a, ci.ty); F(s).regs[ci.dst] = v; F(s).ip++; return; }
  case Instruction::Store: {
    if (ci.atomic && s.th.size() > 1) { schedPoint(s); noteVisible(s); s.th[s.cur].spinI = nullptr; }
    Frame& g = F(s); Val v = getv(g, ci.ops[0]), a = getv(g, ci.ops[1]); if (ci.bytes) storeInt(s, a, v, ci.bytes); else storeTy(s, a, v, ci.ty); F(s).ip++; return; }
  case Instruction::Alloca: { uint64_t n = conc(s, getv(f, ci.ops[0]), "alloca"); uint32_t id = s.mem.alloc(ci.off * n, OK_STACK, false); F(s).allocas.push_back(id); F(s).regs[ci.dst] = Val((uint64_t)id << 32); F(s).ip++; return; }
  case Instruction::Br: {
    if (ci.ops.empty()) { jump(s, ci.t0); return; }
    const Val& c = getv(f, ci.ops[0]);
    if (!c.e) { jump(s, (c.c & 1) ? ci.t0 : ci.t1); return; }
    int tk; size_t before = work.size(); bool forked = branchFork(s, c.e, tk);
    if (forked) jump(*work[before], tk ? ci.t1 : ci.t0);
    jump(s, tk ? ci.t0 : ci.t1); return; }
  case Instruction::Switch: {
    const Val& c = getv(f, ci.ops[0]);
    if (!c.e) { int t = ci.t0; for (auto& k : ci.cases) if (k.first == (c.c & maskw(ci.w2))) { t = k.second; break; } jump(s, t); return; }
    // group by target
    std::map<int, ER> tg; ER any = P.F();
    for (auto& k : ci.cases) { ER e = P.Eq(c.e, P.K(k.first, ci.w2)); any = P.Or(any, e); auto it = tg.find(k.second); if (it == tg.end()) tg[k.second] = e; else it->second = P.Or(it->second, e); }
    ER def = P.Not(any); { auto it = tg.find(ci.t0); if (it == tg.end()) tg[ci.t0] = def; else it->second = P.Or(it->second, def); }
    int mine = -1; for (auto& k : tg) if (P.eval(k.second, s.model->v)) { mine = k.first; break; }
    for (auto& k : tg) if (k.first != mine) { RC<ModelRC> m; int r = solve(s, k.second, &m); if (r == -1) ++incomplete["solver-unknown"]; if (r == 1) { State* n = clone(s); n->model = m; addPC(*n, k.second); n->depth++; jump(*n, k.first); work.push_back(n); } }
    addPC(s, tg[mine]); jump(s, mine); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, ci); return;
  case Instruction::Ret: { if (ci.ops.empty()) doRet(s, Val(), false); else doRet(s, getv(f, ci.ops[0]), true); return; }
  case Instruction::Unreachable: fatalPath(s, "unreachable", "reached unreachable code"); return;
  case Instruction::LandingPad: { Thread& t = s.th[s.cur]; int sel = matchPad(cast<LandingPadInst>(ci.I), tiNameAt(t.cur.ti)); f.regs[ci.dst] = mkAgg({Val(t.cur.obj), Val((uint64_t)(sel < 0 ? 0 : sel))}); f.ip++; return; }
  case Instruction::Resume: { Thread& t = s.th[s.cur]; const Val& v = getv(f, ci.ops[0]); uint64_t ob = (*v.agg)[0].c; t.cur = s.exObjs[ob]; popFrame(s); if (t.st.empty()) fatalPath(s, "exception", "uncaught exception"); unwind(s); return; }
  case Instruction::ExtractValue: { Val v = getv(f, ci.ops[0]); if (!v.agg) { std::string t; llvm::raw_string_ostream o(t); ci.I->getOperand(0)->print(o); fatalPath(s, "unsupported", "aggregate without a value: " + o.str()); return; } for (unsigned k : ci.idx) v = Val((*v.agg)[k]); f.regs[ci.dst] = v; f.ip++; return; }
  case Instruction::InsertValue: {
    std::function<Val(const Val&, size_t)> ins = [&](const Val& b, size_t d) -> Val { if (d == ci.idx.size()) return getv(f, ci.ops[1]); std::vector<Val> n = *b.agg; n[ci.idx[d]] = ins(n[ci.idx[d]], d + 1); return mkAgg(n); };
    f.regs[ci.dst] = ins(getv(f, ci.ops[0]), 0); f.ip++; return; }
  case Instruction::ExtractElement: { uint64_t k = conc(s, getv(f, ci.ops[1]), "ee"); f.regs[ci.dst] = Val((*getv(f, ci.ops[0]).agg)[k]); f.ip++; return; }
  case Instruction::InsertElement: { uint64_t k = conc(s, getv(f, ci.ops[2]), "ie"); std::vector<Val> n = *getv(f, ci.ops[0]).agg; n[k] = getv(f, ci.ops[1]); f.regs[ci.dst] = mkAgg(n); f.ip++; return; }
  case Instruction::ShuffleVector: { const auto &x = *getv(f, ci.ops[0]).agg, &y = *getv(f, ci.ops[1]).agg; std::vector<Val> r; for (unsigned k : ci.idx) { if (k == (unsigned)-1) r.push_back(Val(0)); else r.push_back(k < x.size() ? x[k] : y[k - x.size()]); } f.regs[ci.dst] = mkAgg(r); f.ip++; return; }
  case Instruction::Fence: f.ip++; return;
  case Instruction::AtomicRMW: {
    if (s.th.size() > 1) { schedPoint(s); noteVisible(s); }
    Frame& g = F(s); auto* rm = cast<AtomicRMWInst>(ci.I); Val a = getv(g, ci.ops[0]), v = getv(g, ci.ops[1]); unsigned w = ci.w, by = (w + 7) / 8; Val old = loadInt(s, a, by), nv;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(&s, Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: nv = binop(&s, Instruction::Sub, old, v, w); break;
    case AtomicRMWInst::And: nv = binop(&s, Instruction::And, old, v, w); break; case AtomicRMWInst::Or: nv = binop(&s, Instruction::Or, old, v, w); break; case AtomicRMWInst::Xor: nv = binop(&s, Instruction::Xor, old, v, w); break;
    case AtomicRMWInst::UMax: { ER x = toE(old, w), y = toE(v, w); nv = fromE(P.Ite(P.Ult(x, y), y, x)); break; } case AtomicRMWInst::UMin: { ER x = toE(old, w), y = toE(v, w); nv = fromE(P.Ite(P.Ult(x, y), x, y)); break; }
    default: errs() << "atomicrmw\n"; exit(3); }
    storeInt(s, a, nv, by); F(s).regs[ci.dst] = old; F(s).ip++; return; }
  case Instruction::AtomicCmpXchg: {
    if (s.th.size() > 1) { schedPoint(s); noteVisible(s); s.th[s.cur].spinI = nullptr; }
    Frame& g = F(s); Val a = getv(g, ci.ops[0]), e = getv(g, ci.ops[1]), n = getv(g, ci.ops[2]); unsigned w = tyBits(ci.I->getOperand(1)->getType()), by = (w + 7) / 8; Val old = loadInt(s, a, by); Val eq = icmp(CmpInst::ICMP_EQ, old, e, w);
    uint64_t c = conc(s, eq, "cmpxchg"); if (c) storeInt(s, a, n, by); F(s).regs[ci.dst] = mkAgg({old, Val(c)}); F(s).ip++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Type* t = ci.ty; double x = asD(conc(s, getv(f, ci.ops[0]), "fp"), t), y = asD(conc(s, getv(f, ci.ops[1]), "fp"), t), r = ci.op == Instruction::FAdd ? x + y : ci.op == Instruction::FSub ? x - y : ci.op == Instruction::FMul ? x * y : x / y; F(s).regs[ci.dst] = Val(fromD(r, t)); F(s).ip++; return; }
  case Instruction::FNeg: f.regs[ci.dst] = Val(fromD(-asD(getv(f, ci.ops[0]).c, ci.ty), ci.ty)); f.ip++; return;
  case Instruction::UIToFP: { uint64_t v = conc(s, getv(f, ci.ops[0]), "fp"); F(s).regs[ci.dst] = Val(fromD((double)v, ci.ty)); F(s).ip++; return; }
  case Instruction::SIToFP: { uint64_t v = conc(s, getv(f, ci.ops[0]), "fp"); F(s).regs[ci.dst] = Val(fromD((double)sx64(v, ci.w2), ci.ty)); F(s).ip++; return; }
  case Instruction::FPToUI: case Instruction::FPToSI: { double d = asD(conc(s, getv(f, ci.ops[0]), "fp"), ci.I->getOperand(0)->getType()); F(s).regs[ci.dst] = Val((ci.op == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d) & maskw(ci.w)); F(s).ip++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: { double d = asD(conc(s, getv(f, ci.ops[0]), "fp"), ci.I->getOperand(0)->getType()); F(s).regs[ci.dst] = Val(fromD(d, ci.ty)); F(s).ip++; return; }
  case Instruction::FCmp: { Type* t = ci.I->getOperand(0)->getType(); double x = asD(conc(s, getv(f, ci.ops[0]), "fp"), t), y = asD(conc(s, getv(f, ci.ops[1]), "fp"), t); bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (ci.pred) { case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_OGT: r = !u && x > y; break; case CmpInst::FCMP_OGE: r = !u && x >= y; break; case CmpInst::FCMP_OLT: r = !u && x < y; break; case CmpInst::FCMP_OLE: r = !u && x <= y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break;
      case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; case CmpInst::FCMP_UNE: r = u || x != y; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break; }
    F(s).regs[ci.dst] = Val(r); F(s).ip++; return; }
  default: errs() << "unsupported instruction " << *ci.I << "\n"; exit(3);
  }
}

// ------------------------------------------------------------------ globals
static void initGlobals(State& s) {
  // functions
  uint32_t fid = FUNC_ID; (void)fid;
  { Obj* o = new Obj; o->size = 0; o->kind = OK_FUNC; s.mem.slot(FUNC_ID) = RC<Obj>(o); }
  uint64_t k = 1; for (auto& f : *M) { uint64_t a = (FUNC_ID << 32) | (k++ * 16); gaddr[&f] = a; addr2g[a] = &f; }
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (!g.hasInitializer() && sz < 32) sz = 64;
    uint32_t id = s.mem.alloc(sz, OK_GLOBAL, true); gaddr[&g] = (uint64_t)id << 32; addr2g[(uint64_t)id << 32] = &g;
  }
  for (auto& g : M->globals()) {
    Val a(gaddr[&g]);
    if (g.hasInitializer()) { if (!isa<ConstantAggregateZero>(g.getInitializer()) && !isa<UndefValue>(g.getInitializer())) { 
        if (auto* cd = dyn_cast<ConstantDataSequential>(g.getInitializer()); cd && cd->getElementByteSize() == 1) { StringRef d = cd->getRawDataValues(); Obj* o = s.mem.getw(a.c >> 32); for (size_t i = 0; i < d.size(); ++i) putByte(o, i, d[i]); }
        else storeTy(s, a, evalConst(g.getInitializer()), g.getValueType()); } }
    else {
      str n = g.getName().str(); Obj* o = s.mem.getw(a.c >> 32);
      if (n.compare(0, 4, "_ZTV") == 0) {
        uint64_t dt = 0, wh = 0, ti = 0; if (auto* f = M->getFunction("sx_vt_dtor")) dt = gaddr[f]; if (auto* f = M->getFunction("sx_vt_what")) wh = gaddr[f];
        if (auto* t = M->getGlobalVariable("_ZTI" + n.substr(4), true)) ti = gaddr[t];
        storeInt(s, addOff(a, 8), Val(ti), 8); for (uint64_t i = 16; i + 8 <= o->size; i += 8) storeInt(s, addOff(a, i), Val(i < 32 ? dt : wh), 8);
      }
    }
  }
  for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer() && !g.isThreadLocal()) s.mem.getw(gaddr[&g] >> 32)->ro = true;
}

// ------------------------------------------------------------------ module preparation
static std::unique_ptr<Module> loadAll(LLVMContext& C) {
  std::unique_ptr<Module> base; SMDiagnostic err;
  for (auto& fn : O.files) {
    auto m = parseIRFile(fn, err, C); if (!m) { err.print("symx", errs()); exit(3); }
    for (auto& f : *m) if (f.hasAvailableExternallyLinkage()) f.deleteBody();
    if (!base) base = std::move(m); else if (Linker::linkModules(*base, std::move(m))) { fprintf(stderr, "link failed: %s\n", fn.c_str()); exit(3); }
  }
  for (auto& g : base->globals()) if (g.hasAvailableExternallyLinkage()) { g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); }
  // overrides
  std::vector<Function*> fs; for (auto& f : *base) fs.push_back(&f);
  for (Function* f : fs) {
    str n = f->getName().str(), t; bool env = false;
    if (n.compare(0, 4, "env_") == 0) { t = n.substr(4); env = true; } else if (n.compare(0, 12, "sx_override_") == 0) t = n.substr(12); else continue;
    if (f->isDeclaration()) continue;
    Function* o = base->getFunction(t); if (!o || o == f) continue;
    if (env && !o->isDeclaration()) continue;
    o->replaceAllUsesWith(f); if (!o->isDeclaration()) o->deleteBody();
  }
  return base;
}
static void optimize(Module& M) {
  internalizeModule(M, [](const GlobalValue& g) { return g.getName() == O.entry || g.getName().starts_with("sx_vt_") || g.getName() == "snprintf"; });
  for (auto& f : M) { f.removeFnAttr(Attribute::OptimizeNone); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopUnrolling = false; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PTO.MergeFunctions = false;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(GlobalDCEPass());
  MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
  MPM.run(M, MAM);
}
static void js(FILE* f, const str& s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

// native builds: a call before every atomic access (and after loads, for spin detection), so that a recorded schedule can be followed
static int instrument(const str& in, const str& out) {
  LLVMContext C; SMDiagnostic err; auto m = parseIRFile(in, err, C); if (!m) { err.print("symx", errs()); return 3; }
  Type *V = Type::getVoidTy(C), *I64 = Type::getInt64Ty(C), *Ptr = PointerType::get(C, 0); uint64_t id = std::hash<str>()(in);
  FunctionCallee at = m->getOrInsertFunction("sx_atomic", V, I64), ld = m->getOrInsertFunction("sx_atomic_ld", V, I64, Ptr, I64), pz = m->getOrInsertFunction("sx_pause", V);
  for (auto& f : *m) for (auto& b : f) { std::vector<Instruction*> v; for (auto& i : b) v.push_back(&i);
    for (Instruction* i : v) {
      auto before = [&](uint64_t k) { auto* c = CallInst::Create(at, {ConstantInt::get(I64, k)}, "", i); c->setDebugLoc(i->getDebugLoc()); };
      if (auto* l = dyn_cast<LoadInst>(i)) { if (!l->isAtomic()) continue; before(0); Instruction* n = l->getNextNode(); Value* x = l; Type* t = l->getType();
        if (t->isPointerTy()) x = CastInst::Create(Instruction::PtrToInt, l, I64, "", n); else if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) x = CastInst::Create(Instruction::ZExt, l, I64, "", n); else if (!t->isIntegerTy(64)) continue;
        auto* c = CallInst::Create(ld, {ConstantInt::get(I64, id++), l->getPointerOperand(), x}, "", n); c->setDebugLoc(l->getDebugLoc()); }
      else if (auto* s = dyn_cast<StoreInst>(i)) { if (s->isAtomic()) before(1); }
      else if (isa<AtomicRMWInst>(i)) before(2); else if (isa<AtomicCmpXchgInst>(i)) before(1);
      else if (auto* p = dyn_cast<IntrinsicInst>(i); p && p->getIntrinsicID() == Intrinsic::x86_sse2_pause) { auto* q = CallInst::Create(pz, {}, "", i); q->setDebugLoc(i->getDebugLoc()); }
      else if (auto* c = dyn_cast<CallInst>(i)) if (c->isInlineAsm()) { str as = cast<InlineAsm>(c->getCalledOperand())->getAsmString(); if (as.find("nop") != str::npos || as.find("pause") != str::npos) { auto* q = CallInst::Create(pz, {}, "", i); q->setDebugLoc(i->getDebugLoc()); } }
    } }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os); os.flush(); _exit(ec ? 3 : 0);
}
static long rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / (1 << 20); }

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    str a = argv[i]; auto nx = [&]() { return str(argv[++i]); };
    if (a == "-o") O.out = nx(); else if (a == "--entry") O.entry = nx(); else if (a == "--time") O.maxTime = atof(nx().c_str()); else if (a == "--inst") O.maxInst = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") O.maxSamples = atoi(nx().c_str()); else if (a == "--link-only") O.linkOut = nx(); else if (a == "--instrument") { str i = nx(); return instrument(i, nx()); } else if (a == "--viol") O.maxViol = atoi(nx().c_str()); else if (a == "--solver-ms") O.solverMs = atoi(nx().c_str()); else if (a == "--paths") O.maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--trace") O.trace = true; else if (a == "--spin") O.spin = atoi(nx().c_str()); else if (a == "--dump-ir") O.dumpIR = nx(); else if (a == "--mem") O.maxMemMB = atol(nx().c_str()); else if (a == "--no-opt") O.noOpt = true;
    else if (a == "-p") { str kv = nx(); size_t e = kv.find('='); O.params[kv.substr(0, e)] = strtoll(kv.c_str() + e + 1, 0, 0); }
    else O.files.push_back(a);
  }
  double t0 = nowS(); LLVMContext C; auto mod = loadAll(C); M = mod.get(); if (!O.noOpt) optimize(*M); DL = &M->getDataLayout();
  if (!O.linkOut.empty()) { std::error_code ec; raw_fd_ostream os(O.linkOut, ec); WriteBitcodeToFile(*M, os); os.flush(); _exit(ec ? 3 : 0); }
  if (!O.dumpIR.empty()) { std::error_code ec; raw_fd_ostream os(O.dumpIR, ec); M->print(os, nullptr); }
  for (auto& b : BT) { builtinIdx[b.n] = builtins.size(); builtins.push_back({b.n, b.f}); }
  z3init();
  State* s0 = new State; Thread t; t.id = 0; s0->th.push_back(t);
  double tl = nowS() - t0;
  Function* entry = M->getFunction(O.entry); if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
  std::vector<Function*> ctors;
  { initGlobals(*s0);
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
      std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; }); for (auto& x : v) ctors.push_back(x.second); } }
  s0->th[0].st.clear();
  // run constructors then the harness
  auto runCtor = [&](Function* fn) {
    Frame f; f.f = compileFn(fn); f.regs.resize(f.f->nregs); s0->th[0].st.push_back(f);
    while (true) { try { step(*s0); } catch (PathEnd& e) { if (e.why == "done") { s0->th[0].stat = T_RUN; return true; } fprintf(stderr, "constructor failed: %s", e.why.c_str()); for (auto& u : undefCalled) fprintf(stderr, " %s", u.c_str()); fprintf(stderr, "\n"); return false; } }
  };
  bool ok = true; for (auto* c : ctors) if (!runCtor(c)) { ok = false; break; }
  if (!ok) { for (auto& v : viols) fprintf(stderr, "ctor violation: %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.loc.c_str()); return 3; }
  { Frame f; f.f = compileFn(entry); f.regs.resize(f.f->nregs); s0->th[0].st.clear(); s0->th[0].st.push_back(f); }
  work.push_back(s0); std::map<str, uint64_t> ends; double tstart = nowS(); bool timeout = false; uint64_t tick = 0;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    if (s->model->v.size() < P.varInfo.size()) { RC<ModelRC> m(new ModelRC); m->v = s->model->v; m->v.resize(P.varInfo.size(), 0); s->model = m; }
    try {
      while (true) {
        step(*s);
        if (s->inst > O.maxInst) { ++incomplete["instruction bound per path"]; if (O.trace) { fprintf(stderr, "inst bound at\n"); for (auto& x : stackOf(*s)) fprintf(stderr, "   %s\n", x.c_str()); } throw PathEnd{"bound"}; }
        if ((++tick & 0xfff) == 0) { if (nowS() - tstart > O.maxTime) { timeout = true; throw PathEnd{"timeout"}; } if ((tick & 0xfffff) == 0 && rssMB() > (long)O.maxMemMB) { ++incomplete["memory budget"]; timeout = true; throw PathEnd{"memory"}; } }
      }
    } catch (PathEnd& e) { ends[e.why]++; ++S.paths; if (e.why == "done" || e.why == "ok") takeSample(*s); }
    delete s;
    if (nowS() - tstart > O.maxTime && !work.empty()) timeout = true;
    if (timeout) { ++incomplete["time budget"]; break; }
    if (viols.size() >= O.maxViol) break;
    if (S.paths >= O.maxPaths) { ++incomplete["path budget"]; break; }
  }
  double wall = nowS() - tstart;
  // executed functions / lines of the code under test
  std::map<str, std::pair<str, std::set<unsigned>>> fnl; uint64_t instTot = 0, instEx = 0;
  for (auto& kv : cfuncs) for (auto& b : kv.second->b) for (auto& ci : b.in) { if (DILocation* l = ci.I->getDebugLoc()) { auto* sp = l->getScope()->getSubprogram(); str file = l->getFilename().str(); if (ci.executed) { str nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str(); fnl[nm].first = file; fnl[nm].second.insert(l->getLine()); } } ++instTot; instEx += ci.executed; }
  FILE* f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
  fprintf(f, "{\n\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"rss_mb\":%ld,\"exprs\":%zu,\"sched_points\":%llu,\"pending\":%zu,\n",
    (unsigned long long)S.paths, (unsigned long long)S.forks, (unsigned long long)S.inst, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)S.cacheHits, (unsigned long long)S.modelHits, (unsigned long long)S.asserts, (unsigned long long)S.assertQueries, S.solver, S.maxQuery, wall, tl, rssMB(), P.size(), (unsigned long long)S.schedPoints, work.size());
  auto mp = [&](const char* n, const std::map<str, uint64_t>& m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto& k : m) { if (c) fprintf(f, ","); c = true; js(f, k.first); fprintf(f, ":%llu", (unsigned long long)k.second); } fprintf(f, "},\n"); };
  mp("ends", ends); mp("reached", reached); mp("incomplete", incomplete);
  fprintf(f, "\"functions\":["); bool c = false; for (auto& k : fnl) { if (k.second.first.find("/usr/") == 0) continue; if (c) fprintf(f, ",\n"); c = true; fprintf(f, "{\"name\":"); js(f, demangle(k.first)); fprintf(f, ",\"file\":"); js(f, k.second.first); fprintf(f, ",\"lines\":%zu}", k.second.second.size()); } fprintf(f, "],\n");
  fprintf(f, "\"samples\":["); c = false;
  for (auto& m : samples) { if (c) fprintf(f, ",\n"); c = true; bool d = false; fprintf(f, "{\"labels\":["); for (auto& l : m.labels) { if (d) fprintf(f, ","); d = true; js(f, l); } fprintf(f, "],\"inputs\":["); d = false;
    for (auto& x : m.in) { if (d) fprintf(f, ","); d = true; fprintf(f, "["); js(f, std::get<0>(x)); fprintf(f, ",%u,%llu]", std::get<1>(x), (unsigned long long)std::get<2>(x)); } fprintf(f, "]}"); }
  fprintf(f, "],\n");
  fprintf(f, "\"violations\":["); c = false;
  for (auto& v : viols) { if (c) fprintf(f, ",\n"); c = true; fprintf(f, "{\"kind\":"); js(f, v.kind); fprintf(f, ",\"msg\":"); js(f, v.msg); fprintf(f, ",\"loc\":"); js(f, v.loc); fprintf(f, ",\"stack\":["); bool d = false; for (auto& x : v.stack) { if (d) fprintf(f, ","); d = true; js(f, x); } fprintf(f, "],\"inputs\":["); d = false;
    for (auto& x : v.inputs) { if (d) fprintf(f, ","); d = true; fprintf(f, "["); js(f, std::get<0>(x)); fprintf(f, ",%u,%llu]", std::get<1>(x), (unsigned long long)std::get<2>(x)); } fprintf(f, "]}"); }
  fprintf(f, "]\n}\n"); if (f != stdout) fclose(f);
  fflush(stdout); _exit(viols.empty() ? 0 : 1);
}
