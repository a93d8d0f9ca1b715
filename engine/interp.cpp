// symir: symbolic interpreter for LLVM IR (bitcode produced by clang from /repo's headers + a harness).
#include "rtcommon.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <map>
#include <set>
using namespace llvm;

struct Val { uint64_t v; Expr* e; };
enum Op : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_SELECT, O_SELECTP,
  O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
  O_GEP0, O_GEP1, O_LOAD, O_STORE, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_ICALL, O_BUILTIN, O_UNREACH,
  O_FADD32, O_FSUB32, O_FMUL32, O_FDIV32, O_FCMP32, O_FNEG32, O_SITOFP32, O_UITOFP32, O_FPTOSI32, O_FPTOUI32, O_F80
};
struct Fn;
struct Ins { uint16_t op; uint8_t w, w2; uint32_t x; int32_t d, a, b, c; const Instruction* src; };
struct Edge { uint32_t pc; std::vector<std::pair<int, int>> mv; };
static double rss_gb() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, r = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &r) != 2) r = 0; fclose(f); } return r * 4096. / (1 << 30); }
struct CallInfo { Fn* f; std::vector<int> args; std::vector<Type*> argTy; int nret; int bid; std::vector<int> nslotsPerArg; uint64_t aux; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct Fn {
  Function* F; bool decoded = false; int idx; int nslots = 0; std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> sws; std::vector<int> retIdx; int nargs = 0; bool seen = false; int bid = -1;
  std::vector<std::vector<int>> rets;
};
static LLVMContext lctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<Fn*> fns; static DenseMap<const Function*, Fn*> fnOf; static DenseMap<const GlobalValue*, uint64_t> gaddr;

static inline uint64_t mw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= mw(w); return (int64_t)((v ^ m) - m); }
static inline double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline float bf(uint64_t v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
static inline uint64_t fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

// ------------------------------------------------------------ state of the path
static std::vector<std::pair<std::string, Expr*>> inputs;  // in call order
struct Obs { char t; Val v; }; static std::vector<Obs> observed;
struct Frame { Fn* f; uint32_t pc; Val* base; uint64_t sp; int dst; int nret; };
static std::vector<Frame> stk; static Val* vtop; static Val* vbase; static uint64_t gsp; static uint64_t icount = 0; static const Instruction* curI = nullptr; static Fn* curF = nullptr;
static int expectThrow = 0;
static uint64_t pathRng = 1;
void interp_flush() { SH->instrs += icount; icount = 0; }

static std::string loc(const Instruction* I) {
  if (!I) return "?"; 
  if (auto& d = I->getDebugLoc()) { auto* s = cast<DIScope>(d.getScope()); std::string f = s->getFilename().str(); return f + ":" + std::to_string(d.getLine()); }
  return "?";
}
static std::string backtrace_(int maxn = 14) {
  std::string r; int n = 0;
  for (int i = (int)stk.size() - 1; i >= 0 && n < maxn; i--) {
    Fn* f = stk[i].f; const Instruction* I = i == (int)stk.size() - 1 ? curI : (stk[i].pc > 0 ? f->code[stk[i].pc - 1].src : nullptr);
    // inlined chain
    if (I) if (auto* d = I->getDebugLoc().get()) {
      for (const DILocation* l = d; l && n < maxn; l = l->getInlinedAt()) {
        auto* sp = l->getScope()->getSubprogram(); std::string nm = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())) : "?";
        if (nm.size() > 90) nm = nm.substr(0, 90) + "...";
        r += (r.empty() ? "" : " <- ") + nm + "@" + l->getFilename().str() + ":" + std::to_string(l->getLine()); n++;
      }
      continue;
    }
    std::string nm = demangle(f->F->getName().str()); if (nm.size() > 90) nm = nm.substr(0, 90) + "...";
    r += (r.empty() ? "" : " <- ") + nm; n++;
  }
  return r;
}
static std::string dbl17(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static std::string inputsJson() {
  std::string s = "[";
  for (size_t i = 0; i < inputs.size(); i++) {
    Expr* e = inputs[i].second; std::string v;
    if (e->s == S_REAL) { mpq_class q = evalReal(e); v = "\"" + dbl17(q.get_d()) + "\""; }
    else if (e->s == S_BOOL) v = evalBool(e) ? "1" : "0";
    else v = std::to_string(sx(evalBV(e), e->w));
    s += (i ? "," : "") + std::string("[\"") + jesc(inputs[i].first) + "\"," + v + "]";
  }
  return s + "]";
}
static std::string obsJson() {
  std::string s = "[";
  for (size_t i = 0; i < observed.size(); i++) {
    auto& o = observed[i]; std::string v;
    if (o.t == 'f') { double d = o.v.e ? evalReal(o.v.e).get_d() : bd(o.v.v); v = "\"" + dbl17(d) + "\""; }
    else v = std::to_string((int64_t)(o.v.e ? (o.v.e->s == S_BOOL ? (uint64_t)evalBool(o.v.e) : (uint64_t)sx(evalBV(o.v.e), o.v.e->w)) : o.v.v));
    s += (i ? "," : "") + v;
  }
  return s + "]";
}
[[noreturn]] static void fail(const std::string& m) {
  static bool inside = false; std::string in = "null";
  uint64_t nf = SH->engineFails++;
  if (!inside && nf < 64) { inside = true; if (model_valid() || solver_check(E_TRUE, true, true) == R_SAT) in = inputsJson(); } // replayed natively
  out_line("{\"t\":\"fail\",\"msg\":\"" + jesc(m) + "\",\"inputs\":" + in + ",\"at\":\"" + jesc(backtrace_()) + "\"}");
  if (getenv("SYMIR_FAILSTOP")) { SH->stop = 1; SH->stopReason = 5; }
  path_exit();
}
static bool pathUndef = false; // a branch of this path depended on uninitialised data
static void violation(const std::string& kind, const std::string& id, const std::string& msg) {
  SH->violations++;
  if (!model_valid()) { Res r = solver_check(E_TRUE, true, true); if (r != R_SAT) r = solver_check(E_TRUE, false, true); if (r != R_SAT) fail("no model for violation " + id); }
  bool und = pathUndef;
  IdStat* st = id_stat(id); uint64_t n = st->violated++;
  if (n == 0) SH->distinctV++;
  if (n < 4) out_line("{\"t\":\"violation\",\"kind\":\"" + jesc(kind) + "\",\"id\":\"" + jesc(id) + "\",\"msg\":\"" + jesc(msg) + "\",\"undef\":" + (und ? "true" : "false") + ",\"inputs\":" + inputsJson() + ",\"at\":\"" + jesc(backtrace_()) + "\"}");
  if (SH->violations >= (uint64_t)opts.maxViol && !SH->stop) { SH->stop = 1; SH->stopReason = 2; }
}
[[noreturn]] static void violationEnd(const std::string& kind, const std::string& id, const std::string& msg) { violation(kind, id, msg); SH->paths++; path_exit(); }

static void ensureModel() {
  if (model_valid()) return;
  Res r = solver_check(E_TRUE, false, true);
  if (r == R_UNSAT) { SH->infeasible++; path_exit(); }
  if (r == R_UNKNOWN) fail("solver unknown (path condition)");
}
// decide a boolean: returns the direction taken by this process
static bool branch(Expr* c) {
  if (c->k == K_CONST) return c->cv;
  int k = known(c); if (k >= 0) return k;
  if (c->undef) { SH->undefBranches++; pathUndef = true; }
  ensureModel();
  bool s = evalBool(c); Expr* mine = s ? c : mkNot(c); Expr* other = s ? mkNot(c) : c;
  Res r = solver_check(other, false, false);
  if (r == R_UNSAT) { solver_add(mine); return s; }
  if (r == R_UNKNOWN) { SH->engineFails++; out_line("{\"t\":\"fail\",\"msg\":\"solver unknown (branch)\",\"at\":\"" + jesc(backtrace_()) + "\"}"); solver_add(mine); return s; }
  if (opts.trace) fprintf(stderr, "FORK %s at %s\n", exprStr(c).c_str(), backtrace_(4).c_str());
  if (explore_fork()) { use_alt_model(); solver_add(other); return !s; }
  solver_add(mine); return s;
}
static uint64_t concretize(Expr* e) {
  if (e->k == K_CONST) return e->cv;
  SH->concretisations++;
  if (e->s == S_BOOL) return branch(e);
  if (e->s == S_REAL) fail("concretisation of a real");
  for (int n = 0;; n++) {
    if (n > 4096) fail("too many values in concretisation");
    ensureModel();
    uint64_t v = evalBV(e); Expr* eq = mkCmp(K_EQ, e, mkConst(v, e->w));
    if (branch(eq)) return v;
  }
}
static inline uint64_t conc(const Val& v) { return v.e ? concretize(v.e) : v.v; }
static inline Expr* bv(const Val& v, int w) {
  if (!v.e) return w == 1 ? mkBool(v.v & 1) : mkConst(v.v, w);
  return v.e;
}
static std::unordered_map<Expr*, Expr*> undefReal;
static Expr* rv(const Val& v) {
  if (!v.e) return mkRealConst(bd(v.v));
  if (v.e->s == S_REAL) return v.e;
  if (v.e->k == K_CONST) return mkRealConst(bd(v.e->cv));
  if (v.e->undef) { auto& r = undefReal[v.e]; if (!r) { r = mkRealVar("undef", 40); vars.back().undef = true; r->undef = true; vars.back().e->undef = true; } return r; }
  if (v.e->k == K_ITE) { // selection between two double bit patterns
    return mkRIte(v.e->a, rv(Val{0, v.e->b}), rv(Val{0, v.e->c}));
  }
  fail("bit-level value used as a double: " + exprStr(v.e));
}
static Val fromE(Expr* e) { if (e->k == K_CONST) return Val{e->cv, nullptr}; return Val{0, e}; }
static Val fromR(Expr* e) {
  mpq_class q; if (realConstQ(e, q)) { double d = q.get_d(); if (mpq_class(d) != q) SH->inexact++; return Val{db(d), nullptr}; }
  if (!realExact(e)) SH->inexact++;
  return Val{0, e};
}

// ------------------------------------------------------------ guest memory access
[[noreturn]] static void memErr(uint64_t a, uint64_t n, const char* what) {
  SH->memErrs++;
  violationEnd("memory", std::string("mem:") + what, std::string(what) + " of " + std::to_string(n) + " bytes at invalid address (outside every live object)");
}
static Val slowLoad(uint64_t a, int n, int w) {
  uint8_t* s = shp(a);
  for (int i = 0; i < n; i++) if (s[i] == 0) memErr(a, n, "read");
  // give names to uninitialised bytes
  for (int i = 0; i < n;) {
    if (s[i] != 2) { i++; continue; }
    int j = i; while (j < n && s[j] == 2) j++;
    int len = j - i; if (len > 8) len = 8;
    Expr* u = mkVar("undef", len * 8, INT64_MIN >> (64 - len * 8), INT64_MAX >> (64 - len * 8), true);
    for (int k = 0; k < len; k++) { s[i + k] = 3; syp(a)[i + k] = (Expr*)((uint64_t)u | k); }
    i += len;
  }
  auto ex = [](Expr* t) { return (Expr*)((uint64_t)t & ~15ull); }; auto ix = [](Expr* t) { return (int)((uint64_t)t & 15); };
  Expr** y = syp(a);
  bool allc = true; for (int i = 0; i < n; i++) if (s[i] != 1) allc = false;
  if (allc) { uint64_t v = 0; memcpy(&v, (void*)a, n); return Val{v & mw(w), nullptr}; }
  // whole-expression fast path
  if (s[0] == 3 && ix(y[0]) == 0) {
    Expr* e = ex(y[0]); int ew = e->s == S_BOOL ? 8 : e->w;
    if (ew == 8 * n) { bool ok = true; for (int i = 1; i < n; i++) if (s[i] != 3 || ex(y[i]) != e || ix(y[i]) != i) { ok = false; break; }
      if (ok) { if (w == 1 && e->w != 1) return fromE(mkExtract(e, 0, 1)); return Val{0, e}; } }
  }
  Expr* acc = nullptr;
  for (int i = 0; i < n;) {
    Expr* piece; int len = 1;
    if (s[i] == 1) { uint64_t v = 0; while (i + len < n && s[i + len] == 1 && len < 8) len++; memcpy(&v, (void*)(a + i), len); piece = mkConst(v, len * 8); }
    else {
      Expr* e = ex(y[i]); int b = ix(y[i]);
      while (i + len < n && s[i + len] == 3 && ex(y[i + len]) == e && ix(y[i + len]) == b + len) len++;
      if (e->s == S_REAL) fail("partial load of a symbolic double");
      if (e->s == S_BOOL) piece = mkBoolToBV(e, 8, false); else piece = mkExtract(e, b * 8, len * 8);
    }
    acc = acc ? mkConcat(piece, acc) : piece; i += len;
  }
  if (w == 1) acc = mkExtract(acc, 0, 1);
  return fromE(acc);
}
static inline Val load(uint64_t a, int n, int w) {
  if (__builtin_expect(!inArena(a, n), 0)) memErr(a, n, "read");
  uint8_t* s = shp(a);
  switch (n) {
    case 8: { uint64_t t; memcpy(&t, s, 8); if (t == 0x0101010101010101ull) { uint64_t v; memcpy(&v, (void*)a, 8); return Val{v, nullptr}; } break; }
    case 4: { uint32_t t; memcpy(&t, s, 4); if (t == 0x01010101u) { uint32_t v; memcpy(&v, (void*)a, 4); return Val{v, nullptr}; } break; }
    case 1: if (*s == 1) return Val{*(uint8_t*)a & mw(w), nullptr}; break;
    case 2: if (s[0] == 1 && s[1] == 1) { uint16_t v; memcpy(&v, (void*)a, 2); return Val{v, nullptr}; } break;
    default: break;
  }
  return slowLoad(a, n, w);
}
static inline void chkW(uint64_t a, uint64_t n) {
  if (__builtin_expect(!inArena(a, n), 0)) memErr(a, n, "write");
  uint8_t* s = shp(a);
  if (n == 8) { uint64_t t; memcpy(&t, s, 8); if (((t - 0x0101010101010101ull) & ~t & 0x8080808080808080ull) == 0) return; }
  if (memchr(s, 0, n)) memErr(a, n, "write");
}
static inline void store(uint64_t a, int n, const Val& v) {
  chkW(a, n); uint8_t* s = shp(a);
  if (!v.e) { memcpy((void*)a, &v.v, n); memset(s, 1, n); return; }
  Expr* e = v.e; 
  if (e->k == K_CONST) { memcpy((void*)a, &e->cv, n); memset(s, 1, n); return; }
  if (e->s == S_BOOL && n == 1) e = mkBoolToBV(e, 8, false);
  int ew = e->w; if (ew != 8 * n) { if (ew < 8 * n && e->s == S_BV) e = mkZExt(e, 8 * n); else fail("store width"); }
  memset(s, 3, n); for (int i = 0; i < n; i++) syp(a)[i] = (Expr*)((uint64_t)e | i);
}
static void chkRange(uint64_t a, uint64_t n, const char* w) { if (n == 0) return; if (!inArena(a, n) || memchr(shp(a), 0, n)) memErr(a, n, w); }
static void gcopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; chkRange(s, n, "read"); chkRange(d, n, "write");
  if (memchr(shp(s), 3, n)) memmove(syp(d), syp(s), n * 8);
  memmove(shp(d), shp(s), n); memmove((void*)d, (void*)s, n);
}
static void gset(uint64_t d, Val v, uint64_t n) {
  if (!n) return; chkRange(d, n, "write");
  if (v.e) { for (uint64_t i = 0; i < n; i++) store(d + i, 1, v); return; }
  memset((void*)d, (int)v.v, n); memset(shp(d), 1, n);
}
static std::string gstr(uint64_t a) { std::string r; while (true) { Val v = load(a, 1, 8); uint64_t c = conc(v); if (!c) break; r += (char)c; a++; if (r.size() > 4000) break; } return r; }

// ------------------------------------------------------------ type flattening
struct Leaf { Type* t; uint64_t off; };
static DenseMap<Type*, std::vector<Leaf>*> flatCache;
static void flatRec(Type* t, uint64_t off, std::vector<Leaf>& o) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatRec(s->getElementType(i), off + sl->getElementOffset(i), o); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatRec(a->getElementType(), off + i * sz, o); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flatRec(v->getElementType(), off + i * sz, o); }
  else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {}
  else o.push_back({t, off});
}
static std::vector<Leaf>& flat(Type* t) { auto*& p = flatCache[t]; if (!p) { p = new std::vector<Leaf>(); flatRec(t, 0, *p); } return *p; }
static int widthOf(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 0; }
static int flatIndex(Type* t, ArrayRef<unsigned> idx) {
  int n = 0;
  for (unsigned i : idx) {
    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += flat(s->getElementType(k)).size(); t = s->getElementType(i); }
    else { auto* a = cast<ArrayType>(t); n += i * flat(a->getElementType()).size(); t = a->getElementType(); }
  }
  return n;
}

// ------------------------------------------------------------ constants
static uint64_t constScalar(const Constant* c);
static uint64_t addrOfGV(const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) return constScalar(al->getAliasee());
  if (auto* f = dyn_cast<Function>(g)) { auto it = fnOf.find(f); return FNBASE + (uint64_t)it->second->idx * 16; }
  return gaddr[g];
}
static uint64_t constScalar(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getActiveBits() > 64) fail("wide constant"); return i->getValue().getRawData()[0]; } return i->getZExtValue(); }
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isX86_FP80Ty()) { bool li; APFloat a = f->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return a.bitcastToAPInt().getZExtValue(); } return f->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return addrOfGV(g);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constScalar(ce->getOperand(0)) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
      case Instruction::IntToPtr: case Instruction::PtrToInt: return constScalar(ce->getOperand(0)) & mw(widthOf(ce->getType()));
      case Instruction::Trunc: return constScalar(ce->getOperand(0)) & mw(widthOf(ce->getType()));
      case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & mw(widthOf(ce->getType()));
      case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & mw(widthOf(ce->getType()));
      case Instruction::ICmp: { uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULT: return a < b; default: fail("constexpr icmp"); } }
      case Instruction::Select: return constScalar(ce->getOperand(0)) ? constScalar(ce->getOperand(1)) : constScalar(ce->getOperand(2));
      default: fail(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  fail("constant kind");
}
static void constFlat(const Constant* c, std::vector<uint64_t>& o) {
  Type* t = c->getType();
  if (t->isAggregateType() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constFlat(c->getAggregateElement(i), o);
  } else o.push_back(constScalar(c));
}
static void initGlobalMem(uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initGlobalMem(a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* ar = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(ar->getElementType()); for (uint64_t i = 0; i < ar->getNumElements(); i++) initGlobalMem(a + i * sz, c->getAggregateElement(i)); return; }
  if (auto* ve = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(ve->getElementType()); for (uint64_t i = 0; i < ve->getNumElements(); i++) initGlobalMem(a + i * sz, c->getAggregateElement(i)); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) if (t->isX86_FP80Ty()) { APInt v = cf->getValueAPF().bitcastToAPInt(); memcpy((void*)a, v.getRawData(), 10); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { memcpy((void*)a, ci->getValue().getRawData(), ci->getBitWidth() / 8); return; }
  uint64_t v = constScalar(c); memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}

// ------------------------------------------------------------ builtins
enum { B_NONE = -1,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DELETE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_NOP0, B_NOPARG, B_ABORT, B_ASSERTFAIL, B_THROW, B_ALLOCEXC, B_GUARD, B_EXIT,
  B_VP_INT, B_VP_LONG, B_VP_BOOL, B_VP_REAL, B_VP_ASSUME, B_VP_ASSERT, B_VP_COVER, B_VP_OBSI, B_VP_OBSF, B_VP_CONC, B_VP_END, B_VP_EXPECT, B_VP_FORK, B_VP_SEL, B_VP_SYMBOLIC, B_VP_CLOSE,
  B_M1, B_M2, B_FABS, B_FMIN, B_FMAX, B_FLOOR, B_CEIL, B_TRUNCF, B_ROUND, B_RINT, B_ABS, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR,
  B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO, B_USUBSAT, B_UADDSAT, B_SSUBSAT, B_SADDSAT, B_EXPECT, B_ISCONST, B_OBJSIZE, B_ID, B_TRAP, B_FMULADD, B_COPYSIGN, B_POWI, B_CLOCK, B_MEMCHR, B_STRCMP, B_ISFPCLASS, B_VP_SYMPTR, B_ERRNO, B_LROUND
};
struct MathFn { const char* n; double (*f1)(double); double (*f2)(double, double); };
static MathFn mathFns[] = {{"sqrt", sqrt, 0}, {"exp", exp, 0}, {"log", log, 0}, {"log2", log2, 0}, {"log10", log10, 0}, {"sin", sin, 0}, {"cos", cos, 0}, {"tan", tan, 0}, {"atan", atan, 0}, {"asin", asin, 0}, {"acos", acos, 0}, {"tanh", tanh, 0}, {"sinh", sinh, 0}, {"cosh", cosh, 0}, {"cbrt", cbrt, 0}, {"exp2", exp2, 0}, {"pow", 0, pow}, {"atan2", 0, atan2}, {"fmod", 0, fmod}, {"hypot", 0, hypot}};
static std::map<std::string, std::pair<int, int>> btab;
static void initBuiltins() {
  auto add = [](const char* n, int b, int aux = 0) { btab[n] = {b, aux}; };
  add("malloc", B_MALLOC); add("calloc", B_CALLOC); add("realloc", B_REALLOC); add("free", B_FREE);
  add("_Znwm", B_NEW); add("_Znam", B_NEW); add("_ZnwmRKSt9nothrow_t", B_NEW); add("_ZnamRKSt9nothrow_t", B_NEW); add("_ZnwmSt11align_val_t", B_NEWA); add("_ZnamSt11align_val_t", B_NEWA); add("aligned_alloc", B_NEWA, 1);
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}) add(n, B_DELETE);
  for (auto n : {"memcpy", "memmove"}) add(n, B_MEMCPY); add("memset", B_MEMSET); add("memcmp", B_MEMCMP); add("bcmp", B_MEMCMP); add("strlen", B_STRLEN); add("strcmp", B_STRCMP); add("memchr", B_MEMCHR);
  add("abort", B_ABORT); add("__assert_fail", B_ASSERTFAIL); add("_ZSt9terminatev", B_ABORT); add("__cxa_pure_virtual", B_ABORT); add("__cxa_throw", B_THROW); add("__cxa_rethrow", B_THROW); add("__cxa_allocate_exception", B_ALLOCEXC); add("__cxa_guard_acquire", B_GUARD); add("exit", B_EXIT);
  for (auto n : {"__cxa_guard_release", "__cxa_atexit", "__cxa_free_exception", "printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "fputs", "fputc", "getenv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "srand", "__cxa_thread_atexit"}) add(n, B_NOP0);
  add("_ZNSt6chrono3_V212steady_clock3nowEv", B_CLOCK); add("_ZNSt6chrono3_V212system_clock3nowEv", B_CLOCK); add("time", B_CLOCK); add("clock", B_CLOCK);
  add("vp_int", B_VP_INT); add("vp_long", B_VP_LONG); add("vp_bool", B_VP_BOOL); add("vp_real", B_VP_REAL); add("vp_assume", B_VP_ASSUME); add("vp_assert", B_VP_ASSERT); add("vp_cover", B_VP_COVER); add("vp_observe_i", B_VP_OBSI); add("vp_observe_f", B_VP_OBSF); add("vp_concretize", B_VP_CONC); add("vp_end", B_VP_END); add("vp_expect_throw", B_VP_EXPECT); add("vp_fork", B_VP_FORK); add("vp_select", B_VP_SEL); add("vp_is_symbolic", B_VP_SYMBOLIC); add("vp_close", B_VP_CLOSE);
  int k = 0; for (auto& m : mathFns) { add(m.n, m.f1 ? B_M1 : B_M2, k); k++; }
  // constructing a standard exception is the throw (its message is not modelled)
  for (auto c : {"13runtime_error", "12out_of_range", "16invalid_argument", "11logic_error", "12length_error", "12domain_error", "11range_error", "14overflow_error"})
    for (auto k : {"C1", "C2"}) for (auto a : {"EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) add((std::string("_ZNSt") + c + k + a).c_str(), B_THROW);
  add("fabs", B_FABS); add("fmin", B_FMIN); add("fmax", B_FMAX); add("floor", B_FLOOR); add("ceil", B_CEIL); add("trunc", B_TRUNCF); add("round", B_ROUND); add("rint", B_RINT); add("nearbyint", B_RINT); add("lround", B_LROUND); add("__errno_location", B_ERRNO);
}
static int intrinsicId(const Function* F, int& aux) {
  aux = 0;
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return B_NOP0;
    case Intrinsic::trap: return B_TRAP;
    case Intrinsic::fabs: return B_FABS; case Intrinsic::minnum: return B_FMIN; case Intrinsic::maxnum: return B_FMAX; case Intrinsic::floor: return B_FLOOR; case Intrinsic::ceil: return B_CEIL; case Intrinsic::trunc: return B_TRUNCF; case Intrinsic::round: return B_ROUND; case Intrinsic::rint: case Intrinsic::nearbyint: return B_RINT;
    case Intrinsic::lround: return B_LROUND;
    case Intrinsic::sqrt: aux = 0; return B_M1; case Intrinsic::exp: aux = 1; return B_M1; case Intrinsic::log: aux = 2; return B_M1; case Intrinsic::log2: aux = 3; return B_M1; case Intrinsic::log10: aux = 4; return B_M1; case Intrinsic::sin: aux = 5; return B_M1; case Intrinsic::cos: aux = 6; return B_M1; case Intrinsic::exp2: aux = 15; return B_M1; case Intrinsic::pow: aux = 16; return B_M2; case Intrinsic::powi: return B_POWI;
    case Intrinsic::ldexp: return B_NONE;
    case Intrinsic::abs: return B_ABS; case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN;
    case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::ssub_sat: return B_SSUBSAT; case Intrinsic::sadd_sat: return B_SADDSAT;
    case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_ID;
    case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::objectsize: return B_OBJSIZE;
    case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMULADD; case Intrinsic::copysign: return B_COPYSIGN; case Intrinsic::is_fpclass: return B_ISFPCLASS;
    default: return B_NONE;
  }
}

// ------------------------------------------------------------ decoding
struct Dec {
  Fn* f; DenseMap<const Value*, int> slot; DenseMap<const Value*, int> cslot; DenseMap<const BasicBlock*, uint32_t> bbpc; struct Fix { int kind; size_t ix; int sub; const BasicBlock *from, *to; }; std::vector<Fix> fixes;
  int op(const Value* v, int k = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(v); int b;
      if (it != cslot.end()) b = it->second;
      else { std::vector<uint64_t> o; constFlat(c, o); b = f->consts.size(); for (auto x : o) f->consts.push_back(Val{x, nullptr}); cslot[v] = b; }
      return ~(b + k);
    }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~constI(0); fail("operand without slot"); }
    return it->second + k;
  }
  int constI(uint64_t x) { f->consts.push_back(Val{x, nullptr}); return f->consts.size() - 1; }
  int newTmp() { return f->nslots++; }
  Ins& emit(uint16_t op, const Instruction* I) { f->code.push_back(Ins{}); Ins& i = f->code.back(); i.op = op; i.src = I; return i; }
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    f->edges.push_back({}); uint32_t e = f->edges.size() - 1; fixes.push_back({0, e, 0, from, to});
    for (auto& phi : to->phis()) { int n = flat(phi.getType()).size(); const Value* in = phi.getIncomingValueForBlock(from); for (int k = 0; k < n; k++) f->edges[e].mv.push_back({slot[&phi] + k, op(in, k)}); }
    return e;
  }
  void gep(const Instruction* I) {
    auto* G = cast<GetElementPtrInst>(I); if (G->getType()->isVectorTy()) fail("vector gep");
    unsigned bw = 64; MapVector<Value*, APInt> var; APInt off(bw, 0);
    if (!cast<GEPOperator>(G)->collectOffset(*DL, bw, var, off)) fail("gep");
    int cur = op(G->getPointerOperand()); size_t n = var.size(), k = 0; uint64_t co = off.getZExtValue();
    if (n == 0) { auto& i = emit(O_GEP0, I); i.d = slot[I]; i.a = cur; i.b = constI(co); return; }
    for (auto& p : var) {
      int iw = widthOf(p.first->getType()); int ix = op(p.first); bool last = ++k == n; int dst = last ? slot[I] : newTmp();
      int c1 = constI(p.second.getZExtValue()), c2 = constI(last ? co : 0); (void)c2;
      auto& i = emit(O_GEP1, I); i.d = dst; i.a = cur; i.b = ix; i.c = c1; i.w = iw; cur = dst;
    }
  }
  void call(const CallBase* C) {
    CallInfo ci; ci.f = nullptr; ci.bid = -1; ci.aux = 0;
    for (auto& a : C->args()) { int n = flat(a->getType()).size(); bool byval = C->isByValArgument(&a - C->arg_begin());
      if (byval) { // copy made by the callee side
        Type* bt = C->getParamByValType(&a - C->arg_begin()); int t = newTmp(); auto& i = emit(O_ALLOCA, C); i.d = t; i.a = ~constI(1); i.x = constI(DL->getTypeAllocSize(bt)); i.w = 16;
        CallInfo mc; mc.f = nullptr; mc.bid = B_MEMCPY; mc.nret = 0; mc.aux = 0; mc.args = {t, op(a), ~constI(DL->getTypeAllocSize(bt))}; mc.argTy = {a->getType(), a->getType(), Type::getInt64Ty(lctx)}; f->calls.push_back(mc); auto& m = emit(O_BUILTIN, C); m.x = f->calls.size() - 1; m.d = -1;
        ci.args.push_back(t); ci.argTy.push_back(a->getType()); continue; }
      for (int k = 0; k < n; k++) { ci.args.push_back(op(a, k)); ci.argTy.push_back(flat(a->getType())[k].t); } ci.nslotsPerArg.push_back(n); }
    ci.nret = flat(C->getType()).size();
    const Value* cv = C->getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    int d = ci.nret ? slot[C] : -1;
    if (isa<InlineAsm>(cv)) { if (ci.nret) fail("inline asm"); return; }
    if (auto* F = dyn_cast<Function>(cv)) {
      if (F->isIntrinsic()) {
        int aux; int b = intrinsicId(F, aux);
        if (b == B_NOP0 && ci.nret == 0) return;
        if (b == B_NONE) { std::string nm = F->getName().str();
          if (nm.find("llvm.experimental.constrained") == 0) fail("constrained fp");
          fprintf(stderr, "symir: unsupported intrinsic %s in %s\n", nm.c_str(), f->F->getName().str().c_str()); ci.bid = B_TRAP; }
        else ci.bid = b;
        ci.aux = aux;
        // element-wise vector intrinsics
        if (C->getType()->isVectorTy()) {
          int n = flat(C->getType()).size(); std::vector<int> all = ci.args; std::vector<Type*> at = ci.argTy; auto per = ci.nslotsPerArg;
          for (int k = 0; k < n; k++) { CallInfo e = ci; e.args.clear(); e.argTy.clear(); int p = 0; for (int nn : per) { int ix = nn == n ? p + k : p; e.args.push_back(all[ix]); e.argTy.push_back(at[ix]); p += nn; } e.nret = 1; f->calls.push_back(e); auto& i = emit(O_BUILTIN, C); i.x = f->calls.size() - 1; i.d = d + k; }
          return;
        }
        f->calls.push_back(ci); auto& i = emit(O_BUILTIN, C); i.x = f->calls.size() - 1; i.d = d; return;
      }
      Fn* t = fnOf[F]; ci.f = t;
      if (t->bid >= 0) { ci.bid = t->bid; ci.aux = t->nargs; f->calls.push_back(ci); auto& i = emit(O_BUILTIN, C); i.x = f->calls.size() - 1; i.d = d; return; }
      f->calls.push_back(ci); auto& i = emit(O_CALL, C); i.x = f->calls.size() - 1; i.d = d; return;
    }
    f->calls.push_back(ci); int fo = op(cv); auto& i = emit(O_ICALL, C); i.x = f->calls.size() - 1; i.d = d; i.a = fo;
  }
  void run() {
    Function* F = f->F; int n = 0;
    for (auto& a : F->args()) { slot[&a] = n; n += flat(a.getType()).size(); }
    f->nslots = n;
    for (auto& B : *F) for (auto& I : B) { int k = flat(I.getType()).size(); if (k) { slot[&I] = f->nslots; f->nslots += k; } }
    for (auto& B : *F) {
      bbpc[&B] = f->code.size();
      for (auto& I : B) inst(&I, &B);
    }
    for (auto& x : fixes) { if (x.kind == 0) f->edges[x.ix].pc = bbpc[x.to]; }
  }
  void bin(uint16_t o, const Instruction* I) { int n = flat(I->getType()).size(); Type* t = flat(I->getType())[0].t; for (int k = 0; k < n; k++) { int a = op(I->getOperand(0), k), b = op(I->getOperand(1), k); auto& i = emit(o, I); i.d = slot[I] + k; i.a = a; i.b = b; i.w = widthOf(t); } }
  void un(uint16_t o, const Instruction* I, int w, int w2) { int n = flat(I->getType()).size(); for (int k = 0; k < n; k++) { int a = op(I->getOperand(0), k); auto& i = emit(o, I); i.d = slot[I] + k; i.a = a; i.w = w; i.w2 = w2; } }
  void inst(const Instruction* I, const BasicBlock* B) {
    Type* T = I->getType(); auto st = [&](unsigned k) { return I->getOperand(k)->getType()->getScalarType(); };
    switch (I->getOpcode()) {
      case Instruction::Add: bin(O_ADD, I); break; case Instruction::Sub: bin(O_SUB, I); break; case Instruction::Mul: bin(O_MUL, I); break;
      case Instruction::UDiv: bin(O_UDIV, I); break; case Instruction::SDiv: bin(O_SDIV, I); break; case Instruction::URem: bin(O_UREM, I); break; case Instruction::SRem: bin(O_SREM, I); break;
      case Instruction::And: bin(O_AND, I); break; case Instruction::Or: bin(O_OR, I); break; case Instruction::Xor: bin(O_XOR, I); break; case Instruction::Shl: bin(O_SHL, I); break; case Instruction::LShr: bin(O_LSHR, I); break; case Instruction::AShr: bin(O_ASHR, I); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Type* t = T->getScalarType(); int k = I->getOpcode() == Instruction::FAdd ? 0 : I->getOpcode() == Instruction::FSub ? 1 : I->getOpcode() == Instruction::FMul ? 2 : I->getOpcode() == Instruction::FDiv ? 3 : 4;
        if (t->isDoubleTy()) bin(O_FADD + k, I); else if (t->isFloatTy() && k < 4) bin(O_FADD32 + k, I); else { auto& i = emit(O_F80, I); i.d = -1; } break; }
      case Instruction::FNeg: if (T->getScalarType()->isDoubleTy()) un(O_FNEG, I, 64, 64); else un(O_FNEG32, I, 32, 32); break;
      case Instruction::ICmp: { int n = flat(T).size(); for (int k = 0; k < n; k++) { int a = op(I->getOperand(0), k), b = op(I->getOperand(1), k); auto& i = emit(O_ICMP, I); i.d = slot[I] + k; i.a = a; i.b = b; i.w = widthOf(st(0)); i.w2 = cast<ICmpInst>(I)->getPredicate() - CmpInst::ICMP_EQ; } break; }
      case Instruction::FCmp: { int n = flat(T).size(); for (int k = 0; k < n; k++) { int a = op(I->getOperand(0), k), b = op(I->getOperand(1), k); auto& i = emit(st(0)->isDoubleTy() ? O_FCMP : st(0)->isFloatTy() ? O_FCMP32 : O_F80, I); i.d = slot[I] + k; i.a = a; i.b = b; i.w2 = cast<FCmpInst>(I)->getPredicate(); } break; }
      case Instruction::Select: { auto& lf = flat(T); int n = lf.size(); bool vc = I->getOperand(0)->getType()->isVectorTy();
        for (int k = 0; k < n; k++) { int a = op(I->getOperand(0), vc ? k : 0), b = op(I->getOperand(1), k), c = op(I->getOperand(2), k); auto& i = emit(lf[k].t->isPointerTy() ? O_SELECTP : O_SELECT, I); i.d = slot[I] + k; i.a = a; i.b = b; i.c = c; i.w = widthOf(lf[k].t); i.w2 = lf[k].t->isDoubleTy(); } break; }
      case Instruction::Trunc: un(O_TRUNC, I, widthOf(T->getScalarType()), widthOf(st(0))); break;
      case Instruction::ZExt: un(O_ZEXT, I, widthOf(T->getScalarType()), widthOf(st(0))); break;
      case Instruction::SExt: un(O_SEXT, I, widthOf(T->getScalarType()), widthOf(st(0))); break;
      case Instruction::PtrToInt: un(widthOf(T->getScalarType()) < 64 ? O_TRUNC : O_MOV, I, widthOf(T->getScalarType()), 64); break;
      case Instruction::IntToPtr: un(O_ZEXT, I, 64, widthOf(st(0))); break;
      case Instruction::AddrSpaceCast: case Instruction::Freeze: un(O_MOV, I, 64, 64); break;
      case Instruction::BitCast: { if (flat(T).size() != flat(I->getOperand(0)->getType()).size()) { fprintf(stderr, "symir: bitcast reshaping in %s\n", f->F->getName().str().c_str()); auto& i = emit(O_F80, I); i.d = -1; break; } un(O_MOV, I, 64, 64); break; }
      case Instruction::SIToFP: un(T->getScalarType()->isDoubleTy() ? O_SITOFP : T->getScalarType()->isFloatTy() ? O_SITOFP32 : O_F80, I, 64, widthOf(st(0))); break;
      case Instruction::UIToFP: un(T->getScalarType()->isDoubleTy() ? O_UITOFP : T->getScalarType()->isFloatTy() ? O_UITOFP32 : O_F80, I, 64, widthOf(st(0))); break;
      case Instruction::FPToSI: un(st(0)->isDoubleTy() ? O_FPTOSI : st(0)->isFloatTy() ? O_FPTOSI32 : O_F80, I, widthOf(T->getScalarType()), 64); break;
      case Instruction::FPToUI: un(st(0)->isDoubleTy() ? O_FPTOUI : st(0)->isFloatTy() ? O_FPTOUI32 : O_F80, I, widthOf(T->getScalarType()), 64); break;
      case Instruction::FPExt: un(T->getScalarType()->isDoubleTy() ? O_FPEXT : O_F80, I, 64, 32); break;
      case Instruction::FPTrunc: un(st(0)->isDoubleTy() && T->getScalarType()->isFloatTy() ? O_FPTRUNC : O_F80, I, 32, 64); break;
      case Instruction::GetElementPtr: gep(I); break;
      case Instruction::Load: { auto& lf = flat(T); int k = 0; int p = op(I->getOperand(0));
        for (auto& l : lf) { int pp = p; if (l.off) { pp = newTmp(); int c = constI(l.off); auto& g = emit(O_GEP0, I); g.d = pp; g.a = p; g.b = c; } if (widthOf(l.t) > 64) { auto& i = emit(O_F80, I); i.d = -1; k++; continue; } auto& i = emit(O_LOAD, I); i.d = slot[I] + k; i.a = pp; i.w = widthOf(l.t); i.w2 = DL->getTypeStoreSize(l.t); k++; } break; }
      case Instruction::Store: { Type* t = I->getOperand(0)->getType(); auto& lf = flat(t); int k = 0; int p = op(I->getOperand(1));
        for (auto& l : lf) { int v = op(I->getOperand(0), k); int pp = p; if (l.off) { pp = newTmp(); int c = constI(l.off); auto& g = emit(O_GEP0, I); g.d = pp; g.a = p; g.b = c; } if (widthOf(l.t) > 64) { auto& i = emit(O_F80, I); i.d = -1; k++; continue; } auto& i = emit(O_STORE, I); i.a = pp; i.b = v; i.w = widthOf(l.t); i.w2 = DL->getTypeStoreSize(l.t); k++; } break; }
      case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); int n = op(A->getArraySize()); auto& i = emit(O_ALLOCA, I); i.d = slot[I]; i.a = n; i.x = constI(DL->getTypeAllocSize(A->getAllocatedType())); f->code.back().w = (uint8_t)std::min<uint64_t>(128, std::max<uint64_t>(16, A->getAlign().value())); break; }
      case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isConditional()) { int c = op(b->getCondition()); uint32_t e1 = edge(B, b->getSuccessor(0)), e2 = edge(B, b->getSuccessor(1)); auto& i = emit(O_CBR, I); i.a = c; i.b = e1; i.c = e2; } else { uint32_t e = edge(B, b->getSuccessor(0)); auto& i = emit(O_BR, I); i.x = e; } break; }
      case Instruction::Switch: { auto* s = cast<SwitchInst>(I); SwitchInfo si; int c = op(s->getCondition()); for (auto& cs : s->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(B, cs.getCaseSuccessor())}); si.def = edge(B, s->getDefaultDest()); f->sws.push_back(si); auto& i = emit(O_SWITCH, I); i.a = c; i.x = f->sws.size() - 1; i.w = widthOf(s->getCondition()->getType()); break; }
      case Instruction::Ret: { std::vector<int> r; if (auto* v = cast<ReturnInst>(I)->getReturnValue()) { int n = flat(v->getType()).size(); for (int k = 0; k < n; k++) r.push_back(op(v, k)); } f->rets.push_back(r); auto& i = emit(O_RET, I); i.x = f->rets.size() - 1; break; }
      case Instruction::Call: call(cast<CallBase>(I)); break;
      case Instruction::Invoke: { call(cast<CallBase>(I)); uint32_t e = edge(B, cast<InvokeInst>(I)->getNormalDest()); auto& i = emit(O_BR, I); i.x = e; break; }
      case Instruction::PHI: break;
      case Instruction::Unreachable: case Instruction::Resume: emit(O_UNREACH, I); break;
      case Instruction::LandingPad: break;
      case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); int o = flatIndex(x->getAggregateOperand()->getType(), x->getIndices()); int n = flat(T).size(); for (int k = 0; k < n; k++) { int a = op(x->getAggregateOperand(), o + k); auto& i = emit(O_MOV, I); i.d = slot[I] + k; i.a = a; } break; }
      case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(I); int o = flatIndex(T, x->getIndices()); int n = flat(T).size(), m = flat(x->getInsertedValueOperand()->getType()).size(); for (int k = 0; k < n; k++) { int a = (k >= o && k < o + m) ? op(x->getInsertedValueOperand(), k - o) : op(x->getAggregateOperand(), k); auto& i = emit(O_MOV, I); i.d = slot[I] + k; i.a = a; } break; }
      case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I->getOperand(1)); if (!ci) { emit(O_F80, I); break; } int a = op(I->getOperand(0), ci->getZExtValue()); auto& i = emit(O_MOV, I); i.d = slot[I]; i.a = a; break; }
      case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I->getOperand(2)); if (!ci) { emit(O_F80, I); break; } int n = flat(T).size(); for (int k = 0; k < n; k++) { int a = k == (int)ci->getZExtValue() ? op(I->getOperand(1)) : op(I->getOperand(0), k); auto& i = emit(O_MOV, I); i.d = slot[I] + k; i.a = a; } break; }
      case Instruction::ShuffleVector: { auto* s = cast<ShuffleVectorInst>(I); int n = flat(T).size(), m = flat(s->getOperand(0)->getType()).size(); for (int k = 0; k < n; k++) { int mi = s->getMaskValue(k); int a = mi < 0 ? ~constI(0) : mi < m ? op(s->getOperand(0), mi) : op(s->getOperand(1), mi - m); auto& i = emit(O_MOV, I); i.d = slot[I] + k; i.a = a; } break; }
      case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); int w = widthOf(T), sz = DL->getTypeStoreSize(T); int p = op(a->getPointerOperand()), v = op(a->getValOperand()); { auto& i = emit(O_LOAD, I); i.d = slot[I]; i.a = p; i.w = w; i.w2 = sz; } int t = newTmp(); uint16_t o; switch (a->getOperation()) { case AtomicRMWInst::Add: o = O_ADD; break; case AtomicRMWInst::Sub: o = O_SUB; break; case AtomicRMWInst::Xchg: o = O_MOV; break; case AtomicRMWInst::Or: o = O_OR; break; case AtomicRMWInst::And: o = O_AND; break; default: fail("atomicrmw"); } { auto& i = emit(o, I); i.d = t; i.a = o == O_MOV ? v : slot[I]; i.b = v; i.w = w; } { auto& i = emit(O_STORE, I); i.a = p; i.b = t; i.w = w; i.w2 = sz; } break; }
      case Instruction::Fence: break;
      default: fprintf(stderr, "symir: unsupported instruction %s in %s\n", I->getOpcodeName(), f->F->getName().str().c_str()); { auto& i = emit(O_F80, I); i.d = -1; }
    }
  }
};
static void decode(Fn* f) { Dec d; d.f = f; f->decoded = true; d.run(); }

// ------------------------------------------------------------ execution
static Val binop(uint16_t o, const Val& a, const Val& b, int w) {
  if (!a.e && !b.e) {
    uint64_t x = a.v, y = b.v, m = mw(w);
    switch (o) {
      case O_ADD: return {(x + y) & m, nullptr}; case O_SUB: return {(x - y) & m, nullptr}; case O_MUL: return {(x * y) & m, nullptr};
      case O_AND: return {x & y, nullptr}; case O_OR: return {x | y, nullptr}; case O_XOR: return {x ^ y, nullptr};
      case O_SHL: return {y >= (uint64_t)w ? 0 : (x << y) & m, nullptr}; case O_LSHR: return {y >= (uint64_t)w ? 0 : x >> y, nullptr}; case O_ASHR: return {(uint64_t)(sx(x, w) >> std::min<uint64_t>(y, w - 1)) & m, nullptr};
      case O_UDIV: case O_UREM: if (y == 0) violationEnd("arith", "div-by-zero", "integer division by zero"); return {o == O_UDIV ? x / y : x % y, nullptr};
      default: if (y == 0) violationEnd("arith", "div-by-zero", "integer division by zero"); { int64_t p = sx(x, w), q = sx(y, w); if (q == -1) return {o == O_SDIV ? (0 - x) & m : 0, nullptr}; return {(uint64_t)(o == O_SDIV ? p / q : p % q) & m, nullptr}; }
    }
  }
  if (w > 64) fail("wide integer");
  Expr *x = bv(a, w), *y = bv(b, w);
  if (x->s == S_REAL || y->s == S_REAL) {
    fail("integer operation on the bits of a symbolic double");
  }
  if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) { if (branch(mkCmp(K_EQ, y, mkConst(0, w)))) violationEnd("arith", "div-by-zero", "integer division by zero"); }
  return fromE(mkBin((Kind)(K_ADD + (o - O_ADD)), x, y));
}
static Val icmp(int p, const Val& a, const Val& b, int w) { // p: EQ NE UGT UGE ULT ULE SGT SGE SLT SLE
  if (!a.e && !b.e) {
    uint64_t x = a.v, y = b.v; int64_t s = sx(x, w), t = sx(y, w); bool r = false;
    switch (p) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = s > t; break; case 7: r = s >= t; break; case 8: r = s < t; break; case 9: r = s <= t; break; }
    return {r, nullptr};
  }
  Expr *x = bv(a, w), *y = bv(b, w), *r;
  if (x->s == S_REAL || y->s == S_REAL) fail("integer comparison of the bits of a symbolic double");
  switch (p) {
    case 0: r = mkCmp(K_EQ, x, y); break; case 1: r = mkNot(mkCmp(K_EQ, x, y)); break;
    case 2: r = mkCmp(K_ULT, y, x); break; case 3: r = mkCmp(K_ULE, y, x); break; case 4: r = mkCmp(K_ULT, x, y); break; case 5: r = mkCmp(K_ULE, x, y); break;
    case 6: r = mkCmp(K_SLT, y, x); break; case 7: r = mkCmp(K_SLE, y, x); break; case 8: r = mkCmp(K_SLT, x, y); break; default: r = mkCmp(K_SLE, x, y); break;
  }
  return fromE(r);
}
static Val fbin(uint16_t o, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    double x = bd(a.v), y = bd(b.v), r;
    switch (o) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmod(x, y); }
    return {db(r), nullptr};
  }
  // non finite concrete operand
  for (int k = 0; k < 2; k++) {
    const Val& c = k ? b : a; if (c.e) continue; double d = bd(c.v);
    if (std::isnan(d)) return {db(NAN), nullptr};
    if (std::isinf(d)) { if (o == O_FADD) return c; if (o == O_FSUB) return {db(k ? -d : d), nullptr}; if (o == O_FDIV && k == 1) return {db(0.0), nullptr}; fail("infinite double combined with a symbolic one"); }
  }
  Expr *x = rv(a), *y = rv(b), *r = nullptr;
  switch (o) {
    case O_FADD: r = mkRAdd(x, y); break; case O_FSUB: r = mkRSub(x, y); break; case O_FMUL: r = mkRMul(x, y); break;
    case O_FDIV: {
      mpq_class q; if (realConstQ(y, q)) { if (q == 0) { if (branch(mkRCmp(K_REQ0, x, mkRealConstQ(0)))) return {db(NAN), nullptr}; return {db(branch(mkRCmp(K_RLT0, x, mkRealConstQ(0))) ? -INFINITY : INFINITY), nullptr}; } }
      else if (branch(mkRCmp(K_REQ0, y, mkRealConstQ(0)))) { if (branch(mkRCmp(K_REQ0, x, mkRealConstQ(0)))) return {db(NAN), nullptr}; return {db(branch(mkRCmp(K_RLT0, x, mkRealConstQ(0))) ? -INFINITY : INFINITY), nullptr}; }
      r = mkRDiv(x, y); break; }
    default: fail("frem on symbolic");
  }
  return fromR(r);
}
static Val fcmp(int p, const Val& a, const Val& b) {
  // predicate bits: 1 = equal, 2 = greater, 4 = less, 8 = unordered
  if (!a.e && !b.e) { double x = bd(a.v), y = bd(b.v); int k = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4; return {(uint64_t)((p & k) != 0), nullptr}; }
  if (p == 0) return {0, nullptr}; if (p == 15) return {1, nullptr};
  for (int k = 0; k < 2; k++) { const Val& c = k ? b : a; if (c.e) continue; double d = bd(c.v); if (std::isnan(d)) return {(uint64_t)((p & 8) != 0), nullptr}; if (std::isinf(d)) { bool aless = k ? d > 0 : d < 0; return {(uint64_t)((p & (aless ? 4 : 2)) != 0), nullptr}; } }
  Expr *x = rv(a), *y = rv(b); 
  switch (p & 7) {
    case 0: return {0, nullptr}; case 7: return {1, nullptr};
    case 1: return fromE(mkRCmp(K_REQ0, x, y)); case 6: return fromE(mkNot(mkRCmp(K_REQ0, x, y)));
    case 2: return fromE(mkRCmp(K_RLT0, y, x)); case 3: return fromE(mkRCmp(K_RLE0, y, x)); case 4: return fromE(mkRCmp(K_RLT0, x, y)); default: return fromE(mkRCmp(K_RLE0, x, y));
  }
}
static int selMode = 0; // 0: keep conditional values, 1: drop the alternatives the path condition excludes, 2: fork
static Val selectv(const Val& c, const Val& a, const Val& b, int w, bool dbl, bool ptr) {
  if (!c.e) return (c.v & 1) ? a : b;
  if (!a.e && !b.e && a.v == b.v) return a;
  if (a.e && a.e == b.e) return a;
  if (ptr) return branch(c.e) ? a : b;
  if (dbl || (a.e && a.e->s == S_REAL) || (b.e && b.e->s == S_REAL)) {
    if (opts.forkReal || (!a.e && !std::isfinite(bd(a.v))) || (!b.e && !std::isfinite(bd(b.v)))) return branch(c.e) ? a : b;
    int k = known(c.e); if (k >= 0) return k ? a : b;
    return fromR(mkRIte(c.e, rv(a), rv(b)));
  }
  int k = known(c.e); if (k >= 0) return k ? a : b;
  if (selMode == 2) return branch(c.e) ? a : b;
  if (selMode == 1 && !c.e->undef) { ensureModel(); bool s = evalBool(c.e); Expr* o = s ? mkNot(c.e) : c.e; if (solver_check(o, false, false) == R_UNSAT) { solver_add(s ? c.e : mkNot(c.e)); return s ? a : b; } }
  return fromE(mkIte(c.e, bv(a, w), bv(b, w)));
}
static Val rfloor(const Val& a, bool ceil_) {
  if (!a.e) return {db(ceil_ ? ceil(bd(a.v)) : floor(bd(a.v))), nullptr};
  Expr* x = rv(a); return fromR(ceil_ ? mkRNeg(mkRFloor(mkRNeg(x))) : mkRFloor(x));
}
static bool assertTrue(Expr* c, const std::string& id, const std::string& msg) { // returns false if the failing side is all there is
  IdStat* st = id_stat(id); st->reached++;
  if (c->k == K_CONST && c->cv) { st->discharged++; st->trivially++; return true; }
  if (known(c) == 1) { st->discharged++; return true; }
  Expr* n = mkNot(c);
  Res r = c->k == K_CONST ? R_SAT : solver_check(n, true, true);
  if (c->k == K_CONST) { ensureModel(); solver_check(E_TRUE, true, true); }
  else if (r != R_SAT) {
    Res r2 = solver_check(n, false, true);
    if (r2 == R_UNSAT) { st->discharged++; solver_add(c); return true; }
    if (r2 == R_UNKNOWN) { SH->engineFails++; out_line("{\"t\":\"fail\",\"msg\":\"solver unknown (assertion " + jesc(id) + ")\"}"); return true; }
  }
  violation("assert", id, msg);
  if (c->k == K_CONST) { SH->paths++; path_exit(); }
  // continue on the side where it holds
  Res r3 = solver_check(c, false, true);
  if (r3 != R_SAT) { SH->paths++; path_exit(); }
  solver_add(c); return true;
}
static void endPath() {
  uint64_t n = SH->paths++;
  bool want = false;
  if (opts.nsamples > 0) {
    if (n < (uint64_t)opts.nsamples / 4) want = true;
    else { uint64_t h = (n + opts.seed * 7919) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; uint64_t every = std::max<uint64_t>(1, n / std::max(1, opts.nsamples / 2)); want = (h % every) == 0 && SH->samples < (uint64_t)opts.nsamples; }
  }
  if (want) {
    Res r = solver_check(E_TRUE, true, true);
    bool und = pathUndef;
    if (r == R_SAT) { SH->samples++; out_line("{\"t\":\"sample\",\"undef\":" + std::string(und ? "true" : "false") + ",\"inputs\":" + inputsJson() + ",\"obs\":" + obsJson() + "}"); }
  }
  path_exit();
}

static Val builtin(const CallInfo& ci, const Val* A, Val* out, int argc) {
  auto W = [&](int k) { return widthOf(ci.argTy[k]); };
  switch (ci.bid) {
    case B_MALLOC: case B_NEW: { uint64_t n = conc(A[0]); uint64_t a = mem_alloc(n, 16, true); if (!a) violationEnd("memory", "mem:alloc", "allocation of " + std::to_string(n) + " bytes"); return {a, nullptr}; }
    case B_NEWA: { uint64_t n = conc(A[ci.aux == 1 ? 1 : 0]), al = conc(A[ci.aux == 1 ? 0 : 1]); uint64_t a = mem_alloc(n, al < 16 ? 16 : al, true); if (!a) violationEnd("memory", "mem:alloc", "allocation of " + std::to_string(n) + " bytes"); return {a, nullptr}; }
    case B_CALLOC: { uint64_t n = conc(A[0]) * conc(A[1]); uint64_t a = mem_alloc(n, 16, true); if (!a) violationEnd("memory", "mem:alloc", "calloc"); gset(a, Val{0, nullptr}, n); return {a, nullptr}; }
    case B_REALLOC: { uint64_t p = conc(A[0]), n = conc(A[1]); uint64_t a = mem_alloc(n, 16, true); if (p) { bool ok; uint64_t o = mem_size(p, ok); if (!ok) memErr(p, 0, "free"); gcopy(a, p, std::min(o, n)); mem_free(p); } return {a, nullptr}; }
    case B_FREE: case B_DELETE: { uint64_t p = conc(A[0]); if (p && !mem_free(p)) memErr(p, 0, "free"); return {0, nullptr}; }
    case B_MEMCPY: { uint64_t d = conc(A[0]), s = conc(A[1]), n = conc(A[2]); gcopy(d, s, n); return A[0]; }
    case B_MEMSET: { gset(conc(A[0]), A[1].e && A[1].e->w > 8 ? fromE(mkExtract(A[1].e, 0, 8)) : Val{A[1].v & 255, A[1].e}, conc(A[2])); return A[0]; }
    case B_MEMCMP: { uint64_t d = conc(A[0]), s = conc(A[1]), n = conc(A[2]); for (uint64_t i = 0; i < n; i++) { Val x = load(d + i, 1, 8), y = load(s + i, 1, 8); if (!x.e && !y.e) { if (x.v != y.v) return {(uint64_t)(uint32_t)(int)(x.v - y.v), nullptr}; continue; } if (x.e && x.e == y.e) continue; Expr *ex = bv(x, 8), *ey = bv(y, 8); if (branch(mkCmp(K_EQ, ex, ey))) continue; return {branch(mkCmp(K_ULT, ex, ey)) ? 0xffffffffull : 1ull, nullptr}; } return {0, nullptr}; }
    case B_STRLEN: { uint64_t a = conc(A[0]), n = 0; while (conc(load(a + n, 1, 8))) n++; return {n, nullptr}; }
    case B_STRCMP: { std::string x = gstr(conc(A[0])), y = gstr(conc(A[1])); return {(uint64_t)(uint32_t)x.compare(y), nullptr}; }
    case B_MEMCHR: { uint64_t a = conc(A[0]), c = conc(A[1]) & 255, n = conc(A[2]); for (uint64_t i = 0; i < n; i++) if (conc(load(a + i, 1, 8)) == c) return {a + i, nullptr}; return {0, nullptr}; }
    case B_NOP0: return {0, nullptr};
    case B_NOPARG: return A[0];
    case B_CLOCK: return {0, nullptr};
    case B_ERRNO: { static uint64_t er = 0; if (!er) { er = mem_alloc(16, 16, false); gset(er, Val{0, nullptr}, 16); } return {er, nullptr}; }
    case B_ABORT: violationEnd("abort", "abort", "abort() / terminate reached");
    case B_TRAP: fail("unsupported intrinsic reached");
    case B_EXIT: violationEnd("abort", "exit", "exit() reached");
    case B_ASSERTFAIL: { std::string e = gstr(conc(A[0])), f = gstr(conc(A[1])); violationEnd("assert", "c-assert", "assert(" + e + ") failed at " + f + ":" + std::to_string(conc(A[2]))); }
    case B_THROW: if (expectThrow) { id_stat("cover:thrown")->reached++; endPath(); } violationEnd("exception", "uncaught-exception", "exception thrown: " + (argc > 1 && !A[1].e && A[1].v ? std::string("") : std::string("")));
    case B_ALLOCEXC: return {mem_alloc(conc(A[0]) + 128, 16, true), nullptr};
    case B_GUARD: { uint64_t g = conc(A[0]); Val v = load(g, 1, 8); if (conc(v)) return {0, nullptr}; store(g, 1, Val{1, nullptr}); return {1, nullptr}; }
    // ---- harness API
    case B_VP_INT: { int64_t lo = (int32_t)conc(A[0]), hi = (int32_t)conc(A[1]); std::string n = gstr(conc(A[2])); if (lo > hi) fail("vp_int range"); if (lo == hi) { inputs.push_back({n, mkConst(lo, 32)}); return {(uint64_t)(uint32_t)lo, nullptr}; } Expr* e = mkVar(n, 32, lo, hi, false); inputs.push_back({n, e}); return {0, e}; }
    case B_VP_LONG: { int64_t lo = (int64_t)conc(A[0]), hi = (int64_t)conc(A[1]); std::string n = gstr(conc(A[2])); if (lo > hi) fail("vp_long range"); if (lo == hi) { inputs.push_back({n, mkConst(lo, 64)}); return {(uint64_t)lo, nullptr}; } Expr* e = mkVar(n, 64, lo, hi, false); inputs.push_back({n, e}); return {0, e}; }
    case B_VP_BOOL: { std::string n = gstr(conc(A[0])); Expr* e = mkVar(n, 1, 0, 1, false); inputs.push_back({n, e}); return fromE(mkBoolToBV(e, 32, false)); }
    case B_VP_REAL: { int bits = (int)conc(A[0]); std::string n = gstr(conc(A[1])); Expr* e = mkRealVar(n, bits); inputs.push_back({n, e}); return {0, e}; }
    case B_VP_ASSUME: { if (!A[0].e) { if (!(A[0].v & 1)) { SH->pathsAssumeEnd++; path_exit(); } return {0, nullptr}; } Expr* c = A[0].e; if (c->s == S_BV) c = mkNot(mkCmp(K_EQ, c, mkConst(0, c->w))); if (c->k == K_CONST) { if (!c->cv) { SH->pathsAssumeEnd++; path_exit(); } return {0, nullptr}; }
      solver_add(c); if (!model_valid()) { Res r = solver_check(E_TRUE, false, true); if (r == R_UNSAT) { SH->pathsAssumeEnd++; path_exit(); } if (r == R_UNKNOWN) fail("solver unknown (assume)"); } return {0, nullptr}; }
    case B_VP_ASSERT: { std::string id = gstr(conc(A[1])); Expr* c; if (!A[0].e) c = mkBool(A[0].v & 0xffffffffull); else { c = A[0].e; if (c->s == S_BV) c = mkNot(mkCmp(K_EQ, c, mkConst(0, c->w))); } assertTrue(c, id, "assertion failed"); return {0, nullptr}; }
    case B_VP_CLOSE: { // |a-b| <= tol
      std::string id = gstr(conc(A[3])); if (!A[0].e && !A[1].e && !A[2].e) { assertTrue(mkBool(std::fabs(bd(A[0].v) - bd(A[1].v)) <= bd(A[2].v)), id, dbl17(bd(A[0].v)) + " vs " + dbl17(bd(A[1].v))); return {0, nullptr}; }
      for (int k = 0; k < 2; k++) if (!A[k].e && !std::isfinite(bd(A[k].v))) { assertTrue(E_FALSE, id, "non finite value"); return {0, nullptr}; }
      Expr* d = mkRSub(rv(A[0]), rv(A[1])); Expr* t = rv(A[2]); Expr* c = mkBBin(K_BAND, mkRCmp(K_RLE0, d, t), mkRCmp(K_RLE0, mkRNeg(t), d)); assertTrue(c, id, "values differ"); return {0, nullptr}; }
    case B_VP_COVER: { id_stat("cover:" + gstr(conc(A[0])))->reached++; return {0, nullptr}; }
    case B_VP_OBSI: observed.push_back({'i', A[0]}); return {0, nullptr};
    case B_VP_OBSF: observed.push_back({'f', A[0].e ? Val{0, rv(A[0])} : A[0]}); return {0, nullptr};
    case B_VP_CONC: return {(uint64_t)(A[0].e ? concretize(A[0].e) : A[0].v), nullptr};
    case B_VP_SEL: selMode = (int)conc(A[0]); return {0, nullptr};
    case B_VP_FORK: return {(uint64_t)(A[0].e ? branch(A[0].e->s == S_BV ? mkNot(mkCmp(K_EQ, A[0].e, mkConst(0, A[0].e->w))) : A[0].e) : (A[0].v != 0)), nullptr};
    case B_VP_END: endPath(); return {0, nullptr};
    case B_VP_EXPECT: expectThrow = (int)conc(A[0]); return {0, nullptr};
    case B_VP_SYMBOLIC: return {(uint64_t)(A[0].e != nullptr), nullptr};
    // ---- math
    case B_M1: { auto& m = mathFns[ci.aux]; if (ci.argTy[0]->isFloatTy()) { if (A[0].e) fail("float"); return {fb((float)m.f1(bf(A[0].v))), nullptr}; } if (!A[0].e) return {db(m.f1(bd(A[0].v))), nullptr}; if (std::string(m.n) == "sqrt") { } return fromR(mkRUF(m.n, rv(A[0]), nullptr)); }
    case B_M2: { auto& m = mathFns[ci.aux]; if (ci.argTy[0]->isFloatTy()) { if (A[0].e || A[1].e) fail("float"); return {fb((float)m.f2(bf(A[0].v), bf(A[1].v))), nullptr}; } if (!A[0].e && !A[1].e) return {db(m.f2(bd(A[0].v), bd(A[1].v))), nullptr};
      if (!A[1].e && std::string(m.n) == "pow") { double p = bd(A[1].v); if (p == (int)p && p >= 0 && p <= 8) { Expr* r = mkRealConstQ(1); for (int i = 0; i < (int)p; i++) r = mkRMul(r, rv(A[0])); return fromR(r); } }
      return fromR(mkRUF(m.n, rv(A[0]), rv(A[1]))); }
    case B_POWI: { int p = (int32_t)conc(A[1]); if (!A[0].e) return {db(__builtin_powi(bd(A[0].v), p)), nullptr}; if (p < 0 || p > 8) fail("powi"); Expr* r = mkRealConstQ(1); for (int i = 0; i < p; i++) r = mkRMul(r, rv(A[0])); return fromR(r); }
    case B_FABS: { if (ci.argTy[0]->isFloatTy()) return {A[0].v & 0x7fffffff, nullptr}; if (!A[0].e) return {A[0].v & ~(1ull << 63), nullptr}; Expr* x = rv(A[0]); Expr* n = mkRCmp(K_RLT0, x, mkRealConstQ(0)); int k = known(n); if (k >= 0) return fromR(k ? mkRNeg(x) : x); if (opts.forkReal) return fromR(branch(n) ? mkRNeg(x) : x); return fromR(mkRIte(n, mkRNeg(x), x)); }
    case B_COPYSIGN: if (A[0].e || A[1].e) fail("copysign"); return {db(copysign(bd(A[0].v), bd(A[1].v))), nullptr};
    case B_FMIN: case B_FMAX: { if (!A[0].e && !A[1].e) return {db(ci.bid == B_FMIN ? fmin(bd(A[0].v), bd(A[1].v)) : fmax(bd(A[0].v), bd(A[1].v))), nullptr}; Val lt = fcmp(4, A[0], A[1]); return ci.bid == B_FMIN ? selectv(lt, A[0], A[1], 64, true, false) : selectv(lt, A[1], A[0], 64, true, false); }
    case B_FLOOR: return rfloor(A[0], false); case B_CEIL: return rfloor(A[0], true);
    case B_TRUNCF: if (A[0].e) { Expr* x = rv(A[0]); return branch(mkRCmp(K_RLT0, x, mkRealConstQ(0))) ? rfloor(A[0], true) : rfloor(A[0], false); } return {db(trunc(bd(A[0].v))), nullptr};
    case B_ROUND: if (A[0].e) { Expr *x = rv(A[0]), *half = mkRealConstQ(mpq_class(1, 2)); return branch(mkRCmp(K_RLT0, x, mkRealConstQ(0))) ? fromR(mkRNeg(mkRFloor(mkRSub(half, x)))) : fromR(mkRFloor(mkRAdd(x, half))); } return {db(round(bd(A[0].v))), nullptr};
    case B_RINT: if (A[0].e) fail("rint on symbolic"); return {db(nearbyint(bd(A[0].v))), nullptr};
    case B_LROUND: if (A[0].e) fail("lround on symbolic"); return {(uint64_t)lround(bd(A[0].v)), nullptr};
    case B_FMULADD: return fbin(O_FADD, fbin(O_FMUL, A[0], A[1]), A[2]);
    case B_ISFPCLASS: { uint64_t m = A[1].v; if (!A[0].e) { double d = bd(A[0].v); bool r = false; if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = d < 0 ? m & 4 : m & 512; else r = (m & 0x1f8) != 0; return {(uint64_t)r, nullptr}; } return {(uint64_t)((m & 0x1f8) == 0x1f8), nullptr}; }
    case B_ABS: { int w = W(0); if (!A[0].e) return {(uint64_t)(sx(A[0].v, w) < 0 ? 0 - A[0].v : A[0].v) & mw(w), nullptr}; Expr* z = mkConst(0, w); return fromE(mkIte(mkCmp(K_SLT, A[0].e, z), mkBin(K_SUB, z, A[0].e), A[0].e)); }
    case B_SMAX: { int w = W(0); return selectv(icmp(6, A[0], A[1], w), A[0], A[1], w, false, false); }
    case B_SMIN: { int w = W(0); return selectv(icmp(8, A[0], A[1], w), A[0], A[1], w, false, false); }
    case B_UMAX: { int w = W(0); return selectv(icmp(2, A[0], A[1], w), A[0], A[1], w, false, false); }
    case B_UMIN: { int w = W(0); return selectv(icmp(4, A[0], A[1], w), A[0], A[1], w, false, false); }
    case B_CTPOP: return {(uint64_t)__builtin_popcountll(conc(A[0])), nullptr};
    case B_CTLZ: { int w = W(0); uint64_t v = conc(A[0]); return {(uint64_t)(v ? __builtin_clzll(v) - (64 - w) : w), nullptr}; }
    case B_CTTZ: { int w = W(0); uint64_t v = conc(A[0]); return {(uint64_t)(v ? __builtin_ctzll(v) : w), nullptr}; }
    case B_BSWAP: { int w = W(0); return {__builtin_bswap64(conc(A[0])) >> (64 - w), nullptr}; }
    case B_FSHL: case B_FSHR: { int w = W(0); uint64_t s = conc(A[2]) % w; if (A[0].e || A[1].e) { if (s == 0) return ci.bid == B_FSHL ? A[0] : A[1]; uint64_t l = ci.bid == B_FSHL ? s : w - s; return fromE(mkBin(K_OR, mkBin(K_SHL, bv(A[0], w), mkConst(l, w)), mkBin(K_LSHR, bv(A[1], w), mkConst(w - l, w)))); } uint64_t x = A[0].v, y = A[1].v; if (s == 0) return ci.bid == B_FSHL ? A[0] : A[1]; if (ci.bid == B_FSHL) return {((x << s) | (y >> (w - s))) & mw(w), nullptr}; return {((x << (w - s)) | (y >> s)) & mw(w), nullptr}; }
    case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: {
      int w = W(0); bool sg = ci.bid == B_SADDO || ci.bid == B_SSUBO || ci.bid == B_SMULO; uint16_t o = (ci.bid == B_UADDO || ci.bid == B_SADDO) ? O_ADD : (ci.bid == B_USUBO || ci.bid == B_SSUBO) ? O_SUB : O_MUL;
      if (!A[0].e && !A[1].e) { __int128 x = sg ? (__int128)sx(A[0].v, w) : (__int128)A[0].v, y = sg ? (__int128)sx(A[1].v, w) : (__int128)A[1].v; __int128 r; bool ov = false; if (o == O_MUL && !sg) { unsigned __int128 p = (unsigned __int128)A[0].v * A[1].v; ov = p > mw(w); out[0] = {(uint64_t)p & mw(w), nullptr}; } else { r = o == O_ADD ? x + y : o == O_SUB ? x - y : x * y; if (sg) ov = r < (__int128)sx(1ull << (w - 1), w) || r > (__int128)(mw(w) >> 1); else ov = r < 0 || r > (__int128)mw(w); out[0] = {(uint64_t)r & mw(w), nullptr}; } out[1] = {ov, nullptr}; return out[0]; }
      Expr *x = bv(A[0], w), *y = bv(A[1], w); Expr* r = mkBin((Kind)(K_ADD + o - O_ADD), x, y); Expr* ov;
      if (o == O_MUL) { if (x->smin >= 0 && y->smin >= 0 && (__int128)x->smax * y->smax <= (__int128)(mw(w) >> 1)) ov = E_FALSE; else { if (w > 32) fail("symbolic multiplication overflow"); Expr *x2 = sg ? mkSExt(x, 64) : mkZExt(x, 64), *y2 = sg ? mkSExt(y, 64) : mkZExt(y, 64); Expr* p = mkBin(K_MUL, x2, y2); ov = mkNot(mkCmp(K_EQ, p, sg ? mkSExt(r, 64) : mkZExt(r, 64))); } }
      else if (!sg) ov = o == O_ADD ? mkCmp(K_ULT, r, x) : mkCmp(K_ULT, x, y);
      else { Expr* z = mkConst(0, w); if (o == O_ADD) ov = mkBBin(K_BAND, mkCmp(K_EQ, mkCmp(K_SLT, x, z), mkCmp(K_SLT, y, z)), mkNot(mkCmp(K_EQ, mkCmp(K_SLT, x, z), mkCmp(K_SLT, r, z)))); else ov = mkBBin(K_BAND, mkNot(mkCmp(K_EQ, mkCmp(K_SLT, x, z), mkCmp(K_SLT, y, z))), mkNot(mkCmp(K_EQ, mkCmp(K_SLT, x, z), mkCmp(K_SLT, r, z)))); }
      out[0] = fromE(r); out[1] = fromE(ov); return out[0]; }
    case B_USUBSAT: { int w = W(0); Val lt = icmp(4, A[0], A[1], w); return selectv(lt, Val{0, nullptr}, binop(O_SUB, A[0], A[1], w), w, false, false); }
    case B_UADDSAT: { int w = W(0); Val s = binop(O_ADD, A[0], A[1], w); Val lt = icmp(4, s, A[0], w); return selectv(lt, Val{mw(w), nullptr}, s, w, false, false); }
    case B_SSUBSAT: case B_SADDSAT: { int w = W(0); __int128 r = ci.bid == B_SADDSAT ? (__int128)sx(conc(A[0]), w) + sx(conc(A[1]), w) : (__int128)sx(conc(A[0]), w) - sx(conc(A[1]), w); __int128 lo = sx(1ull << (w - 1), w), hi = mw(w) >> 1; if (r < lo) r = lo; if (r > hi) r = hi; return {(uint64_t)r & mw(w), nullptr}; }
    case B_ID: return A[0];
    case B_ISCONST: return {0, nullptr};
    case B_OBJSIZE: return {~0ull, nullptr};
    default: fail("builtin " + std::to_string(ci.bid));
  }
}

static void pushFrame(Fn* f, int dst, int nret) {
  if (!f->decoded) decode(f);
  if (!f->seen) { f->seen = true; SH->fnSeen[f->idx] = 1; }
  Val* base = vtop; vtop += f->nslots;
  if (vtop > vbase + (1 << 24) || stk.size() > 20000) violationEnd("recursion", "stack-overflow", "recursion too deep");
  stk.push_back({f, 0, base, gsp, dst, nret});
}
static Val constTmp;
static void takeEdge(Frame& fr, uint32_t e) {
  Edge& ed = fr.f->edges[e]; size_t n = ed.mv.size();
  if (n == 1) { int s = ed.mv[0].second; fr.base[ed.mv[0].first] = s >= 0 ? fr.base[s] : fr.f->consts[~s]; }
  else if (n) { Val tmp[64]; Val* t = n <= 64 ? tmp : new Val[n]; for (size_t i = 0; i < n; i++) { int s = ed.mv[i].second; t[i] = s >= 0 ? fr.base[s] : fr.f->consts[~s]; } for (size_t i = 0; i < n; i++) fr.base[ed.mv[i].first] = t[i]; if (t != tmp) delete[] t; }
  fr.pc = ed.pc;
}
static void runFn(Fn* entry) {
  size_t depth0 = stk.size();
  pushFrame(entry, -1, 0);
  uint64_t nextCheck = icount + 2000000; static uint64_t total = 0;
  while (stk.size() > depth0) {
    Frame* fr = &stk.back(); Fn* f = fr->f; Val* R = fr->base; const Val* K = f->consts.data(); const Ins* code = f->code.data();
#define V(i) ((i) >= 0 ? R[i] : K[~(i)])
    for (;;) {
      const Ins& I = code[fr->pc++]; curI = I.src; icount++;
      if (__builtin_expect(icount >= nextCheck, 0)) { total += icount; interp_flush(); nextCheck = icount + 2000000; check_stop(); if (rss_gb() > 3) violationEnd("hang", "nontermination", "path needed more than 3 GB after " + std::to_string(total) + " instructions"); if (total > opts.maxInstr) violationEnd("hang", "nontermination", "path exceeded " + std::to_string(opts.maxInstr) + " instructions"); }
      switch (I.op) {
        case O_ADD: { const Val &a = V(I.a), &b = V(I.b); if (!a.e && !b.e) R[I.d] = {(a.v + b.v) & mw(I.w), nullptr}; else R[I.d] = binop(O_ADD, a, b, I.w); break; }
        case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: R[I.d] = binop(I.op, V(I.a), V(I.b), I.w); break;
        case O_ICMP: R[I.d] = icmp(I.w2, V(I.a), V(I.b), I.w); break;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: R[I.d] = fbin(I.op, V(I.a), V(I.b)); break;
        case O_FNEG: { const Val& a = V(I.a); if (a.e) R[I.d] = fromR(mkRNeg(rv(a))); else R[I.d] = {a.v ^ (1ull << 63), nullptr}; break; }
        case O_FCMP: R[I.d] = fcmp(I.w2, V(I.a), V(I.b)); break;
        case O_FADD32: case O_FSUB32: case O_FMUL32: case O_FDIV32: { const Val &a = V(I.a), &b = V(I.b); if (a.e || b.e) fail("symbolic float"); float x = bf(a.v), y = bf(b.v); R[I.d] = {fb(I.op == O_FADD32 ? x + y : I.op == O_FSUB32 ? x - y : I.op == O_FMUL32 ? x * y : x / y), nullptr}; break; }
        case O_FNEG32: { const Val& a = V(I.a); if (a.e) fail("symbolic float"); R[I.d] = {a.v ^ 0x80000000u, nullptr}; break; }
        case O_FCMP32: { const Val &a = V(I.a), &b = V(I.b); if (a.e || b.e) fail("symbolic float"); float x = bf(a.v), y = bf(b.v); int k = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4; R[I.d] = {(uint64_t)((I.w2 & k) != 0), nullptr}; break; }
        case O_SELECT: R[I.d] = selectv(V(I.a), V(I.b), V(I.c), I.w, I.w2, false); break;
        case O_SELECTP: R[I.d] = selectv(V(I.a), V(I.b), V(I.c), I.w, false, true); break;
        case O_TRUNC: { const Val& a = V(I.a); if (!a.e) R[I.d] = {a.v & mw(I.w), nullptr}; else R[I.d] = fromE(mkExtract(a.e, 0, I.w)); break; }
        case O_ZEXT: { const Val& a = V(I.a); if (!a.e) R[I.d] = a; else R[I.d] = fromE(I.w > 64 ? (fail("wide zext"), a.e) : mkZExt(a.e, I.w)); break; }
        case O_SEXT: { const Val& a = V(I.a); if (!a.e) R[I.d] = {(uint64_t)sx(a.v, I.w2) & mw(I.w), nullptr}; else R[I.d] = fromE(mkSExt(a.e, I.w)); break; }
        case O_MOV: R[I.d] = V(I.a); break;
        case O_SITOFP: { const Val& a = V(I.a); if (!a.e) R[I.d] = {db((double)sx(a.v, I.w2)), nullptr}; else R[I.d] = fromR(mkRFromInt(a.e, true)); break; }
        case O_UITOFP: { const Val& a = V(I.a); if (!a.e) R[I.d] = {db((double)a.v), nullptr}; else { Expr* e = a.e; if (e->s == S_BV && e->w == 64 && e->smin < 0) { if (branch(mkCmp(K_SLT, e, mkConst(0, 64)))) { R[I.d] = fromR(mkRAdd(mkRFromInt(e, true), mkRealConst(18446744073709551616.0))); break; } R[I.d] = fromR(mkRFromInt(e, true)); } else R[I.d] = fromR(mkRFromInt(e, false)); } break; }
        case O_SITOFP32: { const Val& a = V(I.a); R[I.d] = {fb((float)sx(conc(a), I.w2)), nullptr}; break; }
        case O_UITOFP32: { const Val& a = V(I.a); R[I.d] = {fb((float)conc(a)), nullptr}; break; }
        case O_FPTOSI: { const Val& a = V(I.a); if (!a.e) { double d = bd(a.v); R[I.d] = {(uint64_t)(std::isfinite(d) && std::fabs(d) < 9.3e18 ? (int64_t)d : INT64_MIN) & mw(I.w), nullptr}; } else R[I.d] = fromE(mkRToInt(rv(a), I.w)); break; }
        case O_FPTOUI: { const Val& a = V(I.a); if (!a.e) { double d = bd(a.v); R[I.d] = {(d >= 9.2e18 ? (uint64_t)d : (uint64_t)(int64_t)d) & mw(I.w), nullptr}; } else R[I.d] = fromE(mkRToInt(rv(a), I.w)); break; }
        case O_FPTOSI32: R[I.d] = {(uint64_t)(int64_t)bf(conc(V(I.a))) & mw(I.w), nullptr}; break;
        case O_FPTOUI32: { float x = bf(conc(V(I.a))); R[I.d] = {(x >= 9.2e18f ? (uint64_t)x : (uint64_t)(int64_t)x) & mw(I.w), nullptr}; break; }
        case O_FPEXT: { const Val& a = V(I.a); if (a.e) fail("symbolic float"); R[I.d] = {db((double)bf(a.v)), nullptr}; break; }
        case O_FPTRUNC: { const Val& a = V(I.a); if (a.e) fail("symbolic float"); R[I.d] = {fb((float)bd(a.v)), nullptr}; break; }
        case O_GEP0: { const Val& a = V(I.a); if (!a.e) R[I.d] = {a.v + K[I.b].v, nullptr}; else R[I.d] = fromE(mkBin(K_ADD, a.e, mkConst(K[I.b].v, 64))); break; }
        case O_GEP1: { // the constant part follows the last scale
          const Val &a = V(I.a), &b = V(I.b); uint64_t sc = K[I.c].v, co = K[I.c + 1].v;
          if (!a.e && !b.e) R[I.d] = {a.v + (uint64_t)sx(b.v, I.w) * sc + co, nullptr};
          else { Expr* ix = mkSExt(bv(b, I.w), 64); Expr* o = mkBin(K_ADD, mkBin(K_MUL, ix, mkConst(sc, 64)), mkConst(co, 64)); R[I.d] = fromE(mkBin(K_ADD, bv(a, 64), o)); } break; }
        case O_LOAD: { const Val& a = V(I.a); uint64_t p = a.v; if (__builtin_expect(a.e != nullptr, 0)) { p = concretize(a.e); } R[I.d] = load(p, I.w2, I.w); break; }
        case O_STORE: { const Val& a = V(I.a); uint64_t p = a.v; if (__builtin_expect(a.e != nullptr, 0)) p = concretize(a.e); store(p, I.w2, V(I.b)); break; }
        case O_ALLOCA: { uint64_t n = conc(V(I.a)) * K[I.x].v, al = I.w; gsp = (gsp + 16 + al - 1) / al * al; R[I.d] = {gsp, nullptr}; if (gsp + n + 64 > STK_END) violationEnd("recursion", "stack-overflow", "guest stack exhausted"); memset(shp(gsp), 2, n); gsp += (n + 15) & ~15ull; break; }
        case O_BR: takeEdge(*fr, I.x); break;
        case O_CBR: { const Val& a = V(I.a); bool c = a.e ? branch(a.e) : (a.v & 1); takeEdge(*fr, c ? I.b : I.c); break; }
        case O_SWITCH: { const Val& a = V(I.a); SwitchInfo& s = f->sws[I.x]; uint32_t e = s.def;
          if (!a.e) { for (auto& c : s.cases) if (c.first == a.v) { e = c.second; break; } }
          else for (auto& c : s.cases) { Expr* eq = a.e->s == S_BOOL ? mkCmp(K_EQ, a.e, mkBool(c.first & 1)) : mkCmp(K_EQ, a.e, mkConst(c.first, I.w)); if (branch(eq)) { e = c.second; break; } }
          takeEdge(*fr, e); break; }
        case O_RET: {
          auto& r = f->rets[I.x]; Val tmp[32]; size_t n = r.size(); if (n > 32) fail("large return"); for (size_t k = 0; k < n; k++) tmp[k] = V(r[k]);
          if (gsp > fr->sp) memset(shp(fr->sp), 0, gsp - fr->sp); gsp = fr->sp; vtop = fr->base; int d = fr->dst; stk.pop_back();
          if (stk.size() == depth0) return;
          if (d >= 0) { Val* pb = stk.back().base; for (size_t k = 0; k < n; k++) pb[d + k] = tmp[k]; }
          goto next; }
        case O_CALL: case O_ICALL: {
          CallInfo& ci = f->calls[I.x]; Fn* t = ci.f;
          if (I.op == O_ICALL) {
            uint64_t p = conc(V(I.a)); if (p < FNBASE || (p - FNBASE) % 16 || (p - FNBASE) / 16 >= fns.size()) violationEnd("memory", "mem:call", "call through an invalid function pointer");
            t = fns[(p - FNBASE) / 16];
            if (t->bid >= 0) { CallInfo c2 = ci; c2.bid = t->bid; c2.aux = t->nargs; std::vector<Val> av(ci.args.size() + 1); for (size_t k = 0; k < ci.args.size(); k++) av[k] = V(ci.args[k]); Val o2[4]; Val r = builtin(c2, av.data(), o2, ci.args.size()); if (I.d >= 0) R[I.d] = r; break; }
          }
          if (t->F->isDeclaration()) { std::string nm = t->F->getName().str(); fail("call of external function " + demangle(nm) + " [" + nm + "]"); }
          size_t n = ci.args.size(); 
          pushFrame(t, I.d, ci.nret); // may reallocate stk
          Val* nb = stk.back().base; for (size_t k = 0; k < n; k++) { int s = ci.args[k]; nb[k] = s >= 0 ? R[s] : K[~s]; }
          goto next; }
        case O_BUILTIN: {
          CallInfo& ci = f->calls[I.x]; Val av[12]; size_t n = ci.args.size(); if (n > 12) n = 12; for (size_t k = 0; k < n; k++) av[k] = V(ci.args[k]); Val o2[4] = {};
          Val r = builtin(ci, av, o2, n); if (I.d >= 0) { if (ci.nret == 2) { R[I.d] = o2[0]; R[I.d + 1] = o2[1]; } else if (ci.nret == 1) R[I.d] = r; else for (int k = 0; k < ci.nret; k++) R[I.d + k] = Val{0, nullptr}; } break; }
        case O_UNREACH: if (expectThrow) endPath(); violationEnd("unreachable", "unreachable", "unreachable code reached (undefined behaviour)");
        case O_F80: fail(std::string("unsupported instruction ") + (I.src ? I.src->getOpcodeName() : "?"));
        default: fail("opcode");
      }
    }
  next:;
  }
}

// ------------------------------------------------------------ driver
static void sigh(int s) { char b[64]; snprintf(b, 64, "{\"t\":\"fail\",\"msg\":\"engine signal %d\"}", s); SH->engineFails++; out_line(b); SH->live--; _exit(99); }
static bool nopPrefix(const std::string& n) {
  for (const char* p : {"_ZNSo", "_ZStlsISt11char_traits", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNSt13basic_filebuf", "_ZNSt14basic_ofstream", "_ZNSt12__basic_file", "_ZNSt15basic_streambuf", "_ZNSt6locale", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1115basic_stringstream"}) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}
int main(int argc, char** argv) {
  std::string bc, entry = "vp_main"; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--time") opts.timeLimit = atof(nx().c_str()); else if (a == "--max-instr") opts.maxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") opts.jobs = atoi(nx().c_str()); else if (a == "--out") opts.out = nx(); else if (a == "--seed") opts.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") opts.nsamples = atoi(nx().c_str()); else if (a == "--max-viol") opts.maxViol = atoi(nx().c_str()); else if (a == "--trace") opts.trace = true; else if (a == "--fork-real") opts.forkReal = true; else if (a == "--entry") entry = nx(); else bc = a; }
  if (opts.out.empty()) opts.out = "/dev/stdout";
  engine_fail = [](const std::string& m) { fail(m); };
  SMDiagnostic err; M = parseIRFile(bc, err, lctx); if (!M) { err.print("symir", errs()); return 3; }
  DL = &M->getDataLayout(); expr_init(); explore_init(); mem_init(); initBuiltins();
  for (auto& F : *M) { Fn* f = new Fn(); f->F = &F; f->idx = fns.size(); fns.push_back(f); fnOf[&F] = f; std::string n = F.getName().str(); auto it = btab.find(n); if (it != btab.end()) { f->bid = it->second.first; f->nargs = it->second.second; } else if (F.isDeclaration() && nopPrefix(n)) f->bid = B_NOPARG; else if (nopPrefix(n)) f->bid = B_NOPARG; }
  if (fns.size() > (size_t)MAXFN) { fprintf(stderr, "too many functions\n"); return 3; }
  for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; uint64_t sz = DL->getTypeAllocSize(G.getValueType()); uint64_t a = mem_alloc(sz ? sz : 1, std::max<uint64_t>(16, G.getAlign().valueOrOne().value()), false); gaddr[&G] = a; memset((void*)a, 0, sz); memset(shp(a), 1, sz ? sz : 1); }
  for (auto& G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) initGlobalMem(gaddr[&G], G.getInitializer());
  vbase = (Val*)mmap(nullptr, sizeof(Val) * ((1ull << 24) + 100000), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); vtop = vbase; gsp = STK_BASE;
  Function* E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  prctl(PR_SET_CHILD_SUBREAPER, 1); setpgid(0, 0);
  auto t0 = std::chrono::steady_clock::now();
  pid_t w = fork();
  if (w == 0) {
    signal(SIGCHLD, SIG_IGN); signal(SIGSEGV, sigh); signal(SIGABRT, sigh); signal(SIGFPE, sigh); signal(SIGBUS, sigh);
    static char altstk[65536]; (void)altstk;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(&*o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) runFn(fnOf[p.second]);
    }
    runFn(fnOf[E]); endPath();
  }
  bool killed = false;
  while (true) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (p < 0) break;
    if (p == 0) {
      if (SH->live <= 0) { bool any = waitpid(-1, &st, WNOHANG) >= 0; if (!any) break; }
      usleep(2000);
      if (t > opts.timeLimit && !SH->stop) { SH->stop = 1; SH->stopReason = 1; }
      if (t > opts.timeLimit + 30 && !killed) { killed = true; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); }
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::string o = "{\"t\":\"summary\",\"wall\":" + std::to_string(wall) + ",\"paths\":" + std::to_string(SH->paths) + ",\"assume_ended\":" + std::to_string(SH->pathsAssumeEnd) + ",\"infeasible\":" + std::to_string(SH->infeasible) + ",\"forks\":" + std::to_string(SH->forks) + ",\"instrs\":" + std::to_string(SH->instrs) + ",\"queries\":" + std::to_string(SH->queries) + ",\"sat\":" + std::to_string(SH->qsat) + ",\"unsat\":" + std::to_string(SH->qunsat) + ",\"unknown\":" + std::to_string(SH->qunknown) + ",\"solver_s\":" + std::to_string(SH->solverUs / 1e6) + ",\"violations\":" + std::to_string(SH->violations) + ",\"engine_fails\":" + std::to_string(SH->engineFails) + ",\"inexact\":" + std::to_string(SH->inexact) + ",\"undef_branches\":" + std::to_string(SH->undefBranches) + ",\"concretisations\":" + std::to_string(SH->concretisations) + ",\"max_depth\":" + std::to_string(SH->maxDepth) + ",\"stop\":" + std::to_string(SH->stopReason) + ",\"live\":" + std::to_string(SH->live) + ",\"ids\":{";
  for (int i = 0; i < SH->nIds; i++) { auto& d = SH->ids[i]; o += (i ? "," : "") + std::string("\"") + jesc(d.name) + "\":[" + std::to_string(d.reached) + "," + std::to_string(d.discharged) + "," + std::to_string(d.trivially) + "," + std::to_string(d.violated) + "]"; }
  o += "},\"functions\":["; bool first = true; std::set<std::string> seen;
  for (auto f : fns) if (SH->fnSeen[f->idx] && !f->F->isDeclaration()) { std::string n = demangle(f->F->getName().str()); if (n.size() > 200) n = n.substr(0, 200) + "..."; if (!seen.insert(n).second) continue; o += (first ? "\"" : ",\"") + jesc(n) + "\""; first = false; }
  o += "]}"; out_line(o);
  return 0;
}
