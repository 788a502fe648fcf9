// px: symbolic executor for LLVM IR (the real, compiled phoenix-v1 code + harness).
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdarg>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <csignal>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace llvm;

// ---- options -----------------------------------------------------------------
u64 g_rlimit = 40000000;
const char *g_logic = "QF_FD";
unsigned g_resetEvery = 6000;
std::string g_tmpdir = "/tmp";
int g_extTimeout = 60;
int g_dumpSlow = 0;
static std::string g_outdir, g_entry;
static std::vector<u64> g_args;
static std::set<u32> g_tags; static bool g_allTags = true;
static double g_deadline = 0;
static unsigned g_jobs = 1;
static bool g_traceCalls = false;
static unsigned g_sampleEvery = 0; static unsigned g_maxSamples = 0;
static bool g_stopFirst = true;
static bool g_replay = false; static std::vector<u64> g_replayVals;
static bool g_panicDump = false;

static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

// ---- shared state among worker processes ----------------------------------------
struct Shared { volatile int active; volatile int stop; volatile int err; volatile int started; char errmsg[2048]; };
static Shared *g_sh;
static int g_wid = 0;
static void writeResults();
static const Instruction *g_curI = nullptr;
[[noreturn]] void fatal(const char *fmt, ...) {
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(stderr, "px: FATAL: %s\n", b);
  if (g_curI) { std::string t; raw_string_ostream o(t); g_curI->print(o); fprintf(stderr, "  at %s in %s\n", t.substr(0, 200).c_str(), g_curI->getFunction() ? g_curI->getFunction()->getName().str().c_str() : ""); }
  if (g_sh) { if (!g_sh->err) { g_sh->err = 1; snprintf(g_sh->errmsg, sizeof g_sh->errmsg, "%s", b); } g_sh->stop = 1; __sync_fetch_and_sub(&g_sh->active, 1); }
  fflush(stderr);
  _exit(3);
}

// ---- decoded program --------------------------------------------------------------
enum Op : uint16_t {
  K_BIN, K_FLOAT, K_ICMP, K_SELECT, K_LOAD, K_STORE, K_LOADV, K_STOREV, K_ALLOCA, K_GEP, K_TRUNC, K_ZEXT, K_SEXT, K_MOVE,
  K_BR, K_CBR, K_SWITCH, K_RET, K_UNREACHABLE, K_CALL, K_ICALL, K_BUILTIN, K_EXTRACTEL, K_INSERTEL, K_SHUFFLE,
  K_CMPXCHG, K_RMW, K_NOP, K_BITCASTV, K_WIDEEQ, K_UNSUPPORTED
};
enum Bi : uint16_t {
  B_NONE, B_NOP, B_PANIC, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN,
  B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UADDS, B_USUBS, B_SADDS, B_SSUBS, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP,
  B_FTOU, B_BSWAP, B_BITREV, B_FSHL, B_FSHR, B_LOADREL, B_ZERO, B_IDENT, B_PTRMASK, B_REDUCE,
  B_SYM, B_CHOOSE, B_ASSUME, B_CHECK, B_COVER, B_TRACE, B_PANICMODE, B_CONCRETE, B_ARG, B_DONE, B_LOG, B_ERRNO, B_GETENV, B_GUARD, B_PTAG, B_NSYM
};
struct Move { int dst, src; };
struct Edge { int pc; int block; std::vector<Move> mv; bool conflict = false; };
struct MemSlot { u64 off; unsigned w; };
struct Extra {
  std::vector<int> args; std::vector<unsigned> argw; // flattened
  std::vector<MemSlot> slots;
  std::vector<std::pair<u128, int>> cases; // switch: value -> edge
  std::vector<std::pair<int, u64>> gep; std::vector<unsigned> gepw; // (slot, scale)
  std::vector<int> mask;
  std::string msg;
  struct DFn *callee = nullptr;
  const Function *fn = nullptr;
  u64 bi_addr = 0;
};
struct DInst {
  uint16_t op; u8 sub; u8 flags; u8 w; u8 w2; uint16_t lanes;
  int dst, a, b, c; // operand slots (>=0 reg, <0 const ~i)
  int e0, e1;
  Extra *x;
  const Instruction *I;
};
struct DFn {
  const Function *F; std::string name;
  bool decoded = false; int nregs = 0, nparams = 0; int entry = 0; int retSlots = 0;
  std::vector<DInst> code; std::vector<Val> consts; std::vector<Edge> edges;
  std::vector<u8> cov; std::vector<const BasicBlock *> blocks;
  Bi builtin = B_NONE; u64 addr = 0; u64 bparam = 0;
};

static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, DFn *> g_fns;
static std::unordered_map<u64, DFn *> g_fnByAddr;
static std::unordered_map<const GlobalVariable *, u64> g_gaddr;
static u64 g_nextFnAddr = 0xF0000000ull;

// ---- state -------------------------------------------------------------------
struct Frame { DFn *fn; int pc; std::vector<Val> regs; u64 sp; int retDst; };
struct Input { u8 kind; u64 v; }; // 0 sym var (v = index), 1 choose (v = choice)
struct State {
  Mem mem; std::vector<Frame> st; u64 heap = 0x20000000ull; u64 sp = 0x80000000ull;
  std::vector<Ex> pc, imp, mayBorrow; std::vector<u64> model; std::vector<Ex> vars; std::vector<Input> inputs;
  std::vector<std::pair<Ex, u64>> fixed; // expression -> concretised value
  std::vector<Val> trace; u32 panicTag = 0; u64 steps = 0; u32 forks = 0; u64 forced = ~0ull;
};
static std::deque<State *> g_work;
static Mem g_initMem;

struct Violation { u32 tag; std::string loc; std::vector<u64> vals; std::vector<u8> kinds; };
static std::vector<Violation> g_viol;
struct Stats { u64 paths = 0, retp = 0, panics = 0, assumed = 0, instr = 0, forks = 0, donated = 0, incomplete = 0, maxpc = 0, simp = 0; } g_st;
static std::map<u32, std::array<u64, 3>> g_checks; // tag -> {evaluated, trivially true, solver}
static std::map<u32, u64> g_covers;
static std::map<std::string, u64> g_panicLoc;
static std::map<std::string, u64> g_logs;

struct PathEnd { int kind; }; // 0 ret 1 panic 2 assume 3 internal kill

static std::string locOf(const Instruction *I) {
  std::string s;
  if (!I) return s;
  DebugLoc dl = I->getDebugLoc();
  int n = 0;
  for (const DILocation *L = dl.get(); L && n < 6; L = L->getInlinedAt(), n++) {
    std::string f = L->getFilename().str();
    size_t p = f.rfind('/'); 
    if (!s.empty()) s += " < ";
    s += (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(L->getLine());
  }
  return s;
}

// ---- decoding ---------------------------------------------------------------------
static unsigned tw(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  fatal("scalar type expected");
}
static bool wide(Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 128; }
static void flat(Type *t, u64 off, std::vector<MemSlot> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(a->getElementType());
    for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, out);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = tw(v->getElementType()); 
    for (unsigned i = 0; i < v->getNumElements(); i++) {
      if (ew % 8) out.push_back({off + i, ew}); // sub-byte vectors never touch memory here
      else out.push_back({off + i * (ew / 8), ew});
    }
  } else if (t->isVoidTy()) {
  } else if (wide(t)) { // integers of more than 128 bits: 64-bit lanes, lowest first
    if (tw(t) % 64) fatal("integer of %u bits", tw(t));
    for (unsigned i = 0; i < tw(t) / 64; i++) out.push_back({off + 8 * i, 64});
  } else if (t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) out.push_back({off, tw(t)});
  else if (t->isEmptyTy() || t->isMetadataTy() || t->isTokenTy()) {}
  else { std::string s; raw_string_ostream o(s); t->print(o); fatal("unsupported type %s", o.str().c_str()); }
}
static int nslots(Type *t) { std::vector<MemSlot> v; flat(t, 0, v); return v.size(); }
static bool isScalar(Type *t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy(); }

static DFn *getFn(const Function *F);
static u64 fnAddr(const Function *F) { return getFn(F)->addr; }
static u64 gAddr(const GlobalVariable *G) { auto it = g_gaddr.find(G); if (it == g_gaddr.end()) fatal("global without address"); return it->second; }
static u128 apToU(const APInt &a) {
  if (a.getBitWidth() > 128) fatal("integer wider than 128 bits");
  u128 r = a.getRawData()[0];
  if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64;
  return r & maskw(a.getBitWidth());
}
static u128 constScalar(const Constant *C);
static void constVals(const Constant *C, std::vector<Val> &out) {
  Type *t = C->getType();
  if (wide(t) && isa<ConstantInt>(C)) {
    const APInt &a = cast<ConstantInt>(C)->getValue();
    for (unsigned i = 0; i < tw(t) / 64; i++) out.push_back(VC(a.getRawData()[i]));
    return;
  }
  if (isScalar(t) && !wide(t)) {
    u128 v = constScalar(C);
    if (tw(t) <= 64) out.push_back(VC((u64)v)); else out.push_back(Val{0, mkConst(tw(t), v)});
    return;
  }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    std::vector<MemSlot> s; flat(t, 0, s);
    for (auto &m : s) out.push_back(m.w <= 64 ? VC(0) : Val{0, mkConst(m.w, 0)});
    return;
  }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < n; i++) { const Constant *e = C->getAggregateElement(i); if (!e) fatal("aggregate constant"); constVals(e, out); }
}
static u128 constScalar(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) return apToU(ci->getValue());
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *cf = dyn_cast<ConstantFP>(C)) return apToU(cf->getValueAPF().bitcastToAPInt());
  if (auto *f = dyn_cast<Function>(C)) return fnAddr(f);
  if (auto *g = dyn_cast<GlobalVariable>(C)) return gAddr(g);
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constScalar(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    unsigned w = tw(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
      return (u64)(constScalar(ce->getOperand(0)) + (u128)off.getZExtValue());
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return constScalar(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(w);
    case Instruction::Mul: return (constScalar(ce->getOperand(0)) * constScalar(ce->getOperand(1))) & maskw(w);
    case Instruction::And: return constScalar(ce->getOperand(0)) & constScalar(ce->getOperand(1));
    case Instruction::ICmp: {
      u128 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: fatal("const icmp"); }
    }
    default: fatal("constant expression %s", ce->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream o(s); C->print(o); fatal("constant %s", o.str().c_str());
}
static void initGlobalBytes(const Constant *C, u64 addr, Mem &m) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // memory starts zeroed
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = cd->getRawDataValues();
    m.writeBytes(addr, r.size(), (const u8 *)r.data(), nullptr);
    return;
  }
  if (isScalar(t)) {
    unsigned w = tw(t), n = (w + 7) / 8; u128 v = constScalar(C);
    m.writeBytes(addr, n, (const u8 *)&v, nullptr);
    return;
  }
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) initGlobalBytes(C->getAggregateElement(i), addr + L->getElementOffset(i), m);
  } else {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    u64 es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; i++) initGlobalBytes(C->getAggregateElement(i), addr + i * es, m);
  }
}
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static Bi classify(const Function *F, const std::string &n) {
  static const std::map<std::string, Bi> ext = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_MEMALIGN}, {"aligned_alloc", B_NONE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"px_sym", B_SYM}, {"px_choose", B_CHOOSE}, {"px_assume", B_ASSUME}, {"px_check", B_CHECK}, {"px_cover", B_COVER}, {"px_trace", B_TRACE},
    {"px_panic_mode", B_PANICMODE}, {"px_concrete", B_CONCRETE}, {"px_arg", B_ARG}, {"px_done", B_DONE}, {"px_enabled", B_PTAG}, {"px_log", B_LOG},
    {"abort", B_PANIC}, {"__errno_location", B_ERRNO}, {"getenv", B_ZERO}, {"syscall", B_ZERO}, {"write", B_ZERO}, {"writev", B_ZERO}, {"pthread_key_create", B_ZERO}, {"pthread_getspecific", B_ZERO}, {"pthread_setspecific", B_ZERO}};
  auto it = ext.find(n);
  if (it != ext.end()) return it->second;
  if (starts(n, "llvm.")) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::uadd_with_overflow: return B_UADDO;
    case Intrinsic::usub_with_overflow: return B_USUBO;
    case Intrinsic::umul_with_overflow: return B_UMULO;
    case Intrinsic::sadd_with_overflow: return B_SADDO;
    case Intrinsic::ssub_with_overflow: return B_SSUBO;
    case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::uadd_sat: return B_UADDS;
    case Intrinsic::usub_sat: return B_USUBS;
    case Intrinsic::umin: return B_UMIN;
    case Intrinsic::umax: return B_UMAX;
    case Intrinsic::smin: return B_SMIN;
    case Intrinsic::smax: return B_SMAX;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::ctlz: return B_CTLZ;
    case Intrinsic::cttz: return B_CTTZ;
    case Intrinsic::ctpop: return B_CTPOP;
    case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::bitreverse: return B_BITREV;
    case Intrinsic::fshl: return B_FSHL;
    case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::load_relative: return B_LOADREL;
    case Intrinsic::ptrmask: return B_PTRMASK;
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::launder_invariant_group: return B_IDENT;
    case Intrinsic::is_constant: return B_ZERO;
    case Intrinsic::fptoui_sat: return B_FTOU;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor:
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: return B_REDUCE;
    case Intrinsic::trap: case Intrinsic::debugtrap: return B_PANIC;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return B_NOP;
    default: if (starts(n, "llvm.x86.sse2.pause")) return B_NOP; return B_NONE;
    }
  }
  if (has(n, "4core9panicking") || has(n, "rust_begin_unwind") || has(n, "3std9panicking11begin_panic") || has(n, "13unwrap_failed") || has(n, "13expect_failed") ||
      has(n, "handle_alloc_error") || has(n, "capacity_overflow") || has(n, "_fail17h") || has(n, "slice_error_fail")) return B_PANIC;
  // formatting and printing produce no output: the text of log messages is outside every claim
  if (has(n, "4core3fmt5write17h") || has(n, "3std2io5stdio6_print17h") || has(n, "3std2io5stdio7_eprint17h")) return B_ZERO;
  if (has(n, "4core3fmt9Formatter") || has(n, "4core3fmt8builders")) return B_ZERO;
  if (has(n, "4core3fmt3num") && has(n, "3fmt17h")) return B_ZERO;
  return B_NONE;
}
static DFn *getFn(const Function *F) {
  auto it = g_fns.find(F);
  if (it != g_fns.end()) return it->second;
  DFn *d = new DFn; d->F = F; d->name = F->getName().str();
  d->addr = g_nextFnAddr; g_nextFnAddr += 16; g_fnByAddr[d->addr] = d;
  d->builtin = classify(F, d->name);
  if (d->builtin == B_NONE && F->doesNotReturn()) d->builtin = B_PANIC;
  g_fns[F] = d;
  return d;
}

struct Decoder {
  DFn *D; std::unordered_map<const Value *, int> slot; std::map<std::pair<const BasicBlock *, const BasicBlock *>, int> edgeIdx;
  std::unordered_map<const BasicBlock *, int> bpc, bid; std::unordered_map<const Value *, int> cslot;
  int opnd(const Value *v) { // first slot
    if (auto *C = dyn_cast<Constant>(v)) {
      auto it = cslot.find(v); if (it != cslot.end()) return it->second;
      std::vector<Val> o; constVals(C, o);
      int s = ~(int)D->consts.size();
      // consts addressed as ~i, lanes ascend: store so that const slot of lane j is ~(i+j)
      for (auto &x : o) D->consts.push_back(x);
      if (o.empty()) D->consts.push_back(VC(0));
      cslot[v] = s; return s;
    }
    auto it = slot.find(v); if (it == slot.end()) fatal("operand without slot in %s", D->name.c_str());
    return it->second;
  }
  static int lane(int s, int i) { return s >= 0 ? s + i : s - i; }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    auto k = std::make_pair(from, to);
    auto it = edgeIdx.find(k); if (it != edgeIdx.end()) return it->second;
    Edge e; e.pc = -1; e.block = bid[to];
    std::set<int> dsts;
    for (const PHINode &p : to->phis()) {
      int n = nslots(p.getType()); int d = slot[&p], s = opnd(p.getIncomingValueForBlock(from));
      for (int i = 0; i < n; i++) e.mv.push_back({d + i, lane(s, i)});
    }
    for (auto &m : e.mv) dsts.insert(m.dst);
    for (auto &m : e.mv) if (m.src >= 0 && dsts.count(m.src)) e.conflict = true;
    int id = D->edges.size(); D->edges.push_back(e); edgeIdx[k] = id;
    fix.push_back({id, to});
    return id;
  }
  std::vector<std::pair<int, const BasicBlock *>> fix;
  void run(DFn *d) {
    D = d; const Function *F = d->F;
    if (F->isDeclaration()) fatal("call to external function %s", d->name.c_str());
    int n = 0;
    for (const Argument &a : F->args()) { slot[&a] = n; if (a.hasByValAttr()) fatal("byval argument in %s", d->name.c_str()); n += nslots(a.getType()); }
    d->nparams = n;
    for (const BasicBlock &B : *F) { bid[&B] = d->blocks.size(); d->blocks.push_back(&B); for (const Instruction &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nslots(I.getType()); } }
    d->nregs = n; d->retSlots = nslots(F->getReturnType());
    d->cov.assign(d->blocks.size(), 0);
    for (const BasicBlock &B : *F) {
      bpc[&B] = d->code.size();
      for (const Instruction &I : B) inst(I);
    }
    for (auto &f : fix) d->edges[f.first].pc = bpc[f.second];
    d->entry = 0; d->decoded = true;
  }
  DInst mk(const Instruction &I, Op op) {
    DInst x; memset(&x, 0, sizeof x); x.op = op; x.I = &I; x.lanes = 1; x.dst = -1;
    if (!I.getType()->isVoidTy()) { auto it = slot.find(&I); if (it != slot.end()) x.dst = it->second; }
    return x;
  }
  void unsupported(const Instruction &I, const char *why) {
    DInst x = mk(I, K_UNSUPPORTED); x.x = new Extra; std::string s; raw_string_ostream o(s); I.print(o); x.x->msg = std::string(why) + ": " + o.str(); D->code.push_back(x);
  }
  void inst(const Instruction &I) {
    if (isa<PHINode>(I)) return;
    if (isa<DbgInfoIntrinsic>(I)) return;
    Type *T = I.getType();
    auto push = [&](DInst &x) { D->code.push_back(x); };
    auto vecInfo = [&](Type *t, DInst &x) { if (auto *v = dyn_cast<FixedVectorType>(t)) { x.lanes = v->getNumElements(); x.w = tw(v->getElementType()); } else { x.lanes = 1; x.w = tw(t); } };
    // integers of more than 128 bits are moved, cut and compared lane by lane
    Type *O0 = I.getNumOperands() ? I.getOperand(0)->getType() : T;
    if (wide(T) || wide(O0)) {
      auto bitsOf = [&](unsigned from) {
        DInst x = mk(I, K_BITCASTV); x.a = opnd(I.getOperand(0)); x.x = new Extra; x.e1 = from; flat(T, 0, x.x->slots);
        std::vector<MemSlot> in; flat(O0, 0, in); x.lanes = in.size(); x.w = in[0].w; return push(x);
      };
      auto amount = [&]() -> int { auto *c = dyn_cast<ConstantInt>(I.getOperand(1)); return c ? (int)c->getZExtValue() : -1; };
      switch (I.getOpcode()) {
      case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::Freeze: return bitsOf(0);
      case Instruction::LShr: if (amount() < 0) return unsupported(I, "wide shift"); return bitsOf(amount());
      case Instruction::Shl: if (amount() < 0) return unsupported(I, "wide shift"); return bitsOf(-amount());
      case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        DInst x = mk(I, K_BIN); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.lanes = tw(T) / 64; x.w = 64;
        x.sub = I.getOpcode() == Instruction::And ? E_AND : I.getOpcode() == Instruction::Or ? E_OR : E_XOR; return push(x);
      }
      case Instruction::ICmp: {
        if (!cast<ICmpInst>(I).isEquality()) return unsupported(I, "wide comparison");
        DInst x = mk(I, K_WIDEEQ); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = tw(O0) / 64; x.sub = cast<ICmpInst>(I).getPredicate(); return push(x);
      }
      case Instruction::Store: case Instruction::Load: case Instruction::PHI: case Instruction::Select: case Instruction::Call: case Instruction::Invoke: case Instruction::Ret: case Instruction::ExtractValue: case Instruction::InsertValue: break;
      default: return unsupported(I, "wide integer");
      }
    }
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      DInst x = mk(I, K_BIN); vecInfo(T, x); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
      static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::URem, E_UREM}, {Instruction::SDiv, E_SDIV}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
      x.sub = m.at(I.getOpcode());
      if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) x.flags = o->hasNoUnsignedWrap();
      if (x.w > 128) return unsupported(I, "width");
      return push(x);
    }
    case Instruction::ICmp: {
      DInst x = mk(I, K_ICMP); vecInfo(I.getOperand(0)->getType(), x); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
      x.sub = cast<ICmpInst>(I).getPredicate();
      if (x.w > 128) return unsupported(I, "width");
      return push(x);
    }
    case Instruction::Select: {
      DInst x = mk(I, K_SELECT); x.c = opnd(I.getOperand(0)); x.a = opnd(I.getOperand(1)); x.b = opnd(I.getOperand(2));
      x.flags = I.getOperand(0)->getType()->isVectorTy();
      x.x = new Extra; flat(T, 0, x.x->slots); x.lanes = x.x->slots.size();
      return push(x);
    }
    case Instruction::Freeze: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Type *S = I.getOperand(0)->getType();
      if (I.getOpcode() == Instruction::BitCast && (S->isVectorTy() || T->isVectorTy())) {
        DInst x = mk(I, K_BITCASTV); x.a = opnd(I.getOperand(0)); x.x = new Extra; flat(T, 0, x.x->slots);
        std::vector<MemSlot> in; flat(S, 0, in); x.lanes = in.size(); x.w = in[0].w; return push(x);
      }
      if (isScalar(S) && isScalar(T) && tw(S) != tw(T)) {
        DInst x = mk(I, tw(S) > tw(T) ? K_TRUNC : K_ZEXT); x.a = opnd(I.getOperand(0)); x.w = tw(T); x.w2 = tw(S); return push(x);
      }
      DInst x = mk(I, K_MOVE); x.a = opnd(I.getOperand(0)); x.lanes = nslots(T); return push(x);
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::UIToFP: case Instruction::SIToFP:
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FCmp: { // on concrete values only
      Type *S = I.getOperand(0)->getType();
      if (!(T->isDoubleTy() || S->isDoubleTy()) || !isScalar(T) || !isScalar(S) || tw(T) > 64 || tw(S) > 64) return unsupported(I, "floating point");
      DInst x = mk(I, K_FLOAT); x.sub = I.getOpcode(); x.a = opnd(I.getOperand(0)); x.b = I.getNumOperands() > 1 ? opnd(I.getOperand(1)) : x.a; x.w = tw(T); x.w2 = tw(S);
      x.flags = I.getOpcode() == Instruction::FCmp ? cast<FCmpInst>(I).getPredicate() : 0; return push(x);
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      DInst x = mk(I, I.getOpcode() == Instruction::Trunc ? K_TRUNC : I.getOpcode() == Instruction::ZExt ? K_ZEXT : K_SEXT);
      vecInfo(T, x); x.a = opnd(I.getOperand(0)); Type *S = I.getOperand(0)->getType(); x.w2 = tw(S->isVectorTy() ? cast<VectorType>(S)->getElementType() : S);
      if (x.w > 128 || x.w2 > 128) return unsupported(I, "width");
      return push(x);
    }
    case Instruction::Load: {
      auto &L = cast<LoadInst>(I);
      if (isScalar(T) && !wide(T)) { DInst x = mk(I, K_LOAD); x.a = opnd(L.getPointerOperand()); if (tw(T) > 128) return unsupported(I, "width"); x.w = tw(T); return push(x); }
      DInst x = mk(I, K_LOADV); x.a = opnd(L.getPointerOperand()); x.x = new Extra; flat(T, 0, x.x->slots); return push(x);
    }
    case Instruction::Store: {
      auto &S = cast<StoreInst>(I); Type *V = S.getValueOperand()->getType();
      if (isScalar(V) && !wide(V)) {
        DInst x = mk(I, K_STORE); x.a = opnd(S.getPointerOperand()); x.b = opnd(S.getValueOperand()); x.w = tw(V); return push(x);
      }
      DInst x = mk(I, K_STOREV); x.a = opnd(S.getPointerOperand()); x.b = opnd(S.getValueOperand()); x.x = new Extra; flat(V, 0, x.x->slots); return push(x);
    }
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I); DInst x = mk(I, K_ALLOCA); x.x = new Extra; x.a = opnd(A.getArraySize()); x.x->bi_addr = DL->getTypeAllocSize(A.getAllocatedType()); x.e0 = A.getAlign().value(); return push(x);
    }
    case Instruction::GetElementPtr: {
      if (T->isVectorTy()) return unsupported(I, "vector gep");
      auto &G = cast<GetElementPtrInst>(I); DInst x = mk(I, K_GEP); x.x = new Extra; x.a = opnd(G.getPointerOperand());
      u64 off = 0;
      for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
        else {
          u64 sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) off += sz * (u64)ci->getSExtValue();
          else { x.x->gep.push_back({opnd(it.getOperand()), sz}); x.x->gepw.push_back(tw(it.getOperand()->getType())); }
        }
      }
      x.x->bi_addr = off; return push(x);
    }
    case Instruction::ExtractValue: case Instruction::InsertValue: {
      ArrayRef<unsigned> idx = I.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
      Type *t = I.getOperand(0)->getType(); int off = 0;
      for (unsigned i : idx) {
        if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += nslots(s->getElementType(j)); t = s->getElementType(i); }
        else { off += i * nslots(t->getArrayElementType()); t = t->getArrayElementType(); }
      }
      if (I.getOpcode() == Instruction::ExtractValue) { DInst x = mk(I, K_MOVE); x.a = lane(opnd(I.getOperand(0)), off); x.lanes = nslots(T); return push(x); }
      DInst x = mk(I, K_MOVE); x.a = opnd(I.getOperand(0)); x.lanes = nslots(T); push(x);
      DInst y = mk(I, K_MOVE); y.dst += off; y.a = opnd(I.getOperand(1)); y.lanes = nslots(t); return push(y);
    }
    case Instruction::ExtractElement: { DInst x = mk(I, K_EXTRACTEL); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); return push(x); }
    case Instruction::InsertElement: { DInst x = mk(I, K_INSERTEL); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); x.lanes = nslots(T); return push(x); }
    case Instruction::ShuffleVector: {
      auto &S = cast<ShuffleVectorInst>(I); DInst x = mk(I, K_SHUFFLE); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.lanes = nslots(I.getOperand(0)->getType()); x.x = new Extra;
      for (int m : S.getShuffleMask()) x.x->mask.push_back(m);
      return push(x);
    }
    case Instruction::Br: {
      auto &B = cast<BranchInst>(I);
      if (B.isUnconditional()) { DInst x = mk(I, K_BR); x.e0 = edge(I.getParent(), B.getSuccessor(0)); return push(x); }
      DInst x = mk(I, K_CBR); x.a = opnd(B.getCondition()); x.e0 = edge(I.getParent(), B.getSuccessor(0)); x.e1 = edge(I.getParent(), B.getSuccessor(1)); return push(x);
    }
    case Instruction::Switch: {
      auto &S = cast<SwitchInst>(I); DInst x = mk(I, K_SWITCH); x.a = opnd(S.getCondition()); x.w = tw(S.getCondition()->getType()); x.x = new Extra;
      x.e0 = edge(I.getParent(), S.getDefaultDest());
      for (auto &c : S.cases()) x.x->cases.push_back({apToU(c.getCaseValue()->getValue()), edge(I.getParent(), c.getCaseSuccessor())});
      return push(x);
    }
    case Instruction::Ret: { DInst x = mk(I, K_RET); if (I.getNumOperands()) { x.a = opnd(I.getOperand(0)); x.lanes = nslots(I.getOperand(0)->getType()); } else x.lanes = 0; return push(x); }
    case Instruction::Unreachable: { DInst x = mk(I, K_UNREACHABLE); return push(x); }
    case Instruction::Fence: { DInst x = mk(I, K_NOP); return push(x); }
    case Instruction::AtomicCmpXchg: { auto &C = cast<AtomicCmpXchgInst>(I); DInst x = mk(I, K_CMPXCHG); x.a = opnd(C.getPointerOperand()); x.b = opnd(C.getCompareOperand()); x.c = opnd(C.getNewValOperand()); x.w = tw(C.getCompareOperand()->getType()); return push(x); }
    case Instruction::AtomicRMW: { auto &C = cast<AtomicRMWInst>(I); DInst x = mk(I, K_RMW); x.a = opnd(C.getPointerOperand()); x.b = opnd(C.getValOperand()); x.w = tw(T); x.sub = C.getOperation(); return push(x); }
    case Instruction::Call: case Instruction::Invoke: {
      auto &C = cast<CallBase>(I);
      DInst x = mk(I, K_CALL); x.x = new Extra;
      if (C.isInlineAsm()) { // only empty asm (black_box) is accepted
        auto *A = cast<InlineAsm>(C.getCalledOperand());
        // processor feature detection reports no optional features (the portable code is executed)
        if (StringRef(A->getAsmString()).contains("cpuid") || StringRef(A->getAsmString()).contains("xgetbv")) {
          std::vector<MemSlot> rs; flat(T, 0, rs); x.x->slots = rs; x.lanes = rs.size(); x.op = K_BUILTIN; x.sub = B_ZERO; push(x); return;
        }
        if (!A->getAsmString().empty()) return unsupported(I, "inline asm");
        x.op = K_NOP; push(x);
      } else {
        for (const Use &u : C.args()) {
          if (u->getType()->isMetadataTy()) continue;
          int s = opnd(u.get()); std::vector<MemSlot> sl; flat(u->getType(), 0, sl);
          for (unsigned i = 0; i < sl.size(); i++) { x.x->args.push_back(lane(s, i)); x.x->argw.push_back(sl[i].w); }
        }
        std::vector<MemSlot> rs; flat(T, 0, rs); x.x->slots = rs; x.lanes = rs.size(); x.w = rs.empty() ? 0 : rs[0].w;
        const Value *cv = C.getCalledOperand()->stripPointerCasts();
        if (auto *F = dyn_cast<Function>(cv)) {
          DFn *d = getFn(F); x.x->callee = d; x.x->fn = F;
          if (d->builtin != B_NONE) { x.op = K_BUILTIN; x.sub = d->builtin; if (C.arg_size() && !C.getArgOperand(0)->getType()->isMetadataTy()) { std::vector<MemSlot> s0; flat(C.getArgOperand(0)->getType(), 0, s0); x.c = s0.size(); } }
        } else { x.op = K_ICALL; x.a = opnd(C.getCalledOperand()); }
        push(x);
      }
      if (auto *inv = dyn_cast<InvokeInst>(&I)) { DInst b = mk(I, K_BR); b.e0 = edge(I.getParent(), inv->getNormalDest()); push(b); }
      return;
    }
    case Instruction::LandingPad: case Instruction::Resume: case Instruction::CallBr: return unsupported(I, "unwinding");
    default: return unsupported(I, "opcode");
    }
  }
};
static void ensure(DFn *d) { if (!d->decoded) { Decoder dec; dec.run(d); } }

// ---- solving helpers -----------------------------------------------------------------
static std::vector<Ex> slice(const State &s, u32 vs) {
  std::vector<Ex> out; std::vector<char> in(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && vs_intersects(s.pc[i]->vs, vs)) { in[i] = 1; out.push_back(s.pc[i]); u32 n = vs_union(vs, s.pc[i]->vs); if (n != vs) { vs = n; ch = true; } }
  }
  return out;
}
Ex rewriteWith(Ex e, const std::unordered_map<Ex, Ex> &m, std::unordered_map<Ex, Ex> &memo);
// simplifies a formula under the facts of the path
static Ex underPath(const State &s, Ex c) {
  std::unordered_map<Ex, Ex> m;
  auto fact = [&](Ex e) {
    if (!vs_intersects(e->vs, c->vs)) return;
    if (e->op == E_XOR && isC(e->k[1]) && e->w == 1) m[e->k[0]] = mkConst(1, 0); // negated comparisons are comparisons
    else {
      m[e] = mkConst(1, 1);
      if (e->op == E_EQ && isC(e->k[1])) m[e->k[0]] = e->k[1];
      else if (e->op == E_EQ && e->k[1]->op == E_VAR && e->k[0]->op == E_VAR) m[e->k[1]] = e->k[0];
      if (e->op == E_ULT || e->op == E_ULE) {
        Ex a = e->k[0], b = e->k[1];
        auto put = [&](Ex k, Ex v) { if (!isC(k) && k != v) m[k] = v; };
        put(mkBin(E_ULT, b, a), mkConst(1, 0));
        if (e->op == E_ULT) { put(mkBin(E_ULE, a, b), mkConst(1, 1)); put(mkBin(E_EQ, a, b), mkConst(1, 0)); put(mkBin(E_ULE, b, a), mkConst(1, 0)); }
        put(mkIte(mkBin(E_ULT, a, b), a, b), a); put(mkIte(mkBin(E_ULT, a, b), b, a), b);
        put(mkIte(mkBin(E_ULT, b, a), a, b), b); put(mkIte(mkBin(E_ULT, b, a), b, a), a);
      }
    }
  };
  for (Ex e : s.pc) fact(e);
  for (Ex e : s.imp) fact(e);
  if (m.empty()) return c;
  for (int r = 0; r < 3; r++) { std::unordered_map<Ex, Ex> memo; Ex n = rewriteWith(c, m, memo); if (n == c) break; c = n; if (isC(c)) break; }
  return c;
}
static Res query(const State &s, Ex c, std::vector<u64> &model) {
  if (isC(c)) return c->c ? R_SAT : R_UNSAT;
  { Ex n = underPath(s, c); if (isC(n) && !n->c) { g_st.simp++; return R_UNSAT; } }
  std::vector<Ex> q = slice(s, c->vs); q.push_back(c);
  Res r = solve(q, model);
  if (r == R_UNKNOWN) fatal("solver gave no answer (resource limit) for a query of %zu constraints", q.size());
  return r;
}
// query for an assertion: additionally rewrites everything into ring normal form representatives first
static bool linearSet(const std::vector<Ex> &cs) { for (Ex e : cs) if (!linearEx(e)) return false; return true; }
static u64 g_canonHits = 0, g_absHits = 0;
static Res queryCheck(const State &s, Ex c, std::vector<u64> &model) {
  if (isC(c)) return c->c ? R_SAT : R_UNSAT;
  { Ex n = underPath(s, c); if (isC(n) && !n->c) { g_st.simp++; return R_UNSAT; } }
  std::vector<Ex> q = slice(s, c->vs); u32 vs = c->vs; for (Ex e : q) vs = vs_union(vs, e->vs);
  std::vector<Ex> all = q; all.push_back(c);
  size_t nq = all.size();
  for (Ex e : s.imp) if (vs_intersects(e->vs, vs)) all.push_back(e);
  canonSet(all);
  std::set<Ex> have;
  for (Ex e : all) { if (isC(e)) { if (!e->c) { g_canonHits++; return R_UNSAT; } continue; } have.insert(e); }
  for (Ex e : have) if (have.count(mkNot(e))) { g_canonHits++; return R_UNSAT; }
  std::vector<Ex> cs(all.begin(), all.begin() + nq);
  if (!linearSet(all) && liaUnsat(all) == R_UNSAT) { g_absHits++; return R_UNSAT; }
  Res r = solve(cs, model);
  if (r == R_SAT) { q.push_back(c); for (Ex e : q) if (!evalEx(e, model)) fatal("model of the rewritten query does not satisfy the original %s", exStr(e, 8).c_str()); }
  if (r == R_UNKNOWN) fatal("solver gave no answer (resource limit) for an assertion with %zu constraints", q.size());
  return r;
}
static bool light(Ex e) { // small linear term: a cheap query
  return e->w <= 64 && e->hi <= ((u128)1 << 40) && linearEx(e);
}
// does a - b never borrow on this path?
static bool noBorrow(State &s, Ex a, Ex b) {
  if (a->lo >= b->hi) return true;
  Ex lt = mkBin(E_ULT, a, b);
  if (isC(lt)) return !lt->c;
  Ex ge = mkNot(lt);
  for (Ex e : s.pc) if (e == ge) return true; else if (e == lt) return false;
  for (Ex e : s.imp) if (e == ge) return true; else if (e == lt) return false;
  if (a->hi < b->lo || !light(a) || !light(b)) return false;
  for (Ex e : s.mayBorrow) if (e == lt) return false;
  if (evalEx(lt, s.model)) return false;
  std::vector<u64> m = s.model;
  if (query(s, lt, m) == R_UNSAT) { s.imp.push_back(ge); return true; }
  s.mayBorrow.push_back(lt);
  return false;
}
static void addPC(State &s, Ex c) {
  if (isC(c)) { if (!c->c) throw PathEnd{2}; return; }
  if (c->op == E_AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  for (Ex e : s.pc) if (e == c) return;
  s.pc.push_back(c);
  if (s.pc.size() > g_st.maxpc) g_st.maxpc = s.pc.size();
}
// decide a boolean syntactically from the path condition: 1/0, or -1
static int known(const State &s, Ex c) {
  if (isC(c)) return (int)c->c;
  Ex n = mkNot(c);
  for (Ex e : s.pc) { if (e == c) return 1; if (e == n) return 0; }
  for (Ex e : s.imp) { if (e == c) return 1; if (e == n) return 0; }
  return -1;
}
static void checkStop() { if (g_sh->stop) throw PathEnd{4}; }
static void enqueue(State *s) { g_work.push_back(s); g_st.forks++; }

// branch on symbolic c: returns value taken by `s`; pushes a fork when both are feasible.
// The fork re-executes the current instruction with the decision recorded in its pc.
static bool decide(State &s, Ex c) {
  int k = known(s, c); if (k >= 0) return k;
  checkStop();
  bool v = evalEx(c, s.model) != 0;
  std::vector<u64> m = s.model;
  Ex other = v ? mkNot(c) : c;
  Res r = query(s, other, m);
  if (r == R_SAT) {
    State *f = new State(s); f->model = m; addPC(*f, other); f->forks++;
    enqueue(f);
  }
  if (r == R_SAT) { addPC(s, v ? c : mkNot(c)); s.forks++; }
  else s.imp.push_back(v ? c : mkNot(c)); // implied; recorded so that it is decided syntactically later
  return v;
}
static u64 concretize(State &s, const Val &v, unsigned w, const char *what) {
  if (!v.e) return v.c;
  if (isC(v.e)) return (u64)v.e->c;
  for (auto &p : s.fixed) if (p.first == v.e) return p.second;
  checkStop();
  u64 val = (u64)evalEx(v.e, s.model);
  Ex eq = mkBin(E_EQ, v.e, mkConst(v.e->w, val));
  int k = known(s, eq);
  if (k != 1) {
    std::vector<u64> m = s.model;
    Ex ne = mkNot(eq);
    if (query(s, ne, m) == R_SAT) {
      if (s.forks > 100000) fatal("too many values while concretising %s", what);
      State *f = new State(s); f->model = m; addPC(*f, ne); f->forks++; enqueue(f);
    }
    addPC(s, eq);
  }
  s.fixed.push_back({v.e, val});
  return val;
}

// ---- execution -------------------------------------------------------------------------
static inline Val &R(Frame &f, int s) { return s >= 0 ? f.regs[s] : f.fn->consts[~s]; }
static u64 alloc(State &s, u64 n, u64 align) {
  if (align < 16) align = 16;
  u64 a = (s.heap + 16 + align - 1) / align * align;
  if (a - s.heap < 16) a += align;
  s.heap = a + n + 16;
  if (s.heap > 0x7f000000ull) fatal("heap exhausted (allocation of %llu)", (unsigned long long)n);
  // header: size, readable only by us
  s.mem.setValid(a - 8, 8, true); s.mem.write(a - 8, 8, VC(n)); s.mem.setValid(a - 8, 8, false);
  // zero-fill fresh memory is guaranteed (bump allocation, pages start zeroed)
  if (n) s.mem.setValid(a, n, true);
  return a;
}
static u64 allocSize(State &s, u64 a) { s.mem.setValid(a - 8, 8, true); u64 n = s.mem.read(a - 8, 8).c; s.mem.setValid(a - 8, 8, false); return n; }
static void copyMem(State &s, u64 d, u64 p, u64 n) {
  if (!n) return;
  static std::vector<u8> db; static std::vector<Cell> cb;
  if (db.size() < n) { db.resize(n); cb.resize(n); }
  bool any = s.mem.readBytes(p, n, db.data(), cb.data());
  s.mem.writeBytes(d, n, db.data(), any ? cb.data() : nullptr);
}
static void recordViolation(State &s, u32 tag, const std::vector<u64> &model, const std::string &loc) {
  Violation v; v.tag = tag; v.loc = loc;
  for (auto &i : s.inputs) { v.kinds.push_back(i.kind); v.vals.push_back(i.kind == 0 ? model[i.v] : i.v); }
  for (auto &o : g_viol) if (o.tag == tag) return;
  g_viol.push_back(v);
  if (g_stopFirst) g_sh->stop = 1;
}
static std::string stackOf(State &s) {
  std::string r;
  for (int i = (int)s.st.size() - 1, n = 0; i >= 0 && n < 8; i--, n++) { Frame &f = s.st[i]; int pc = f.pc; const Instruction *I = pc < (int)f.fn->code.size() ? f.fn->code[pc].I : nullptr; r += (n ? " <- " : "") + locOf(I); }
  return r;
}
static void doPanic(State &s, const Instruction *I) {
  if (s.panicTag && (s.panicTag >= 9900 || g_allTags || g_tags.count(s.panicTag / 100))) recordViolation(s, s.panicTag, s.model, "panic at " + stackOf(s));
  if (g_panicLoc.size() < 400) g_panicLoc[g_panicDump ? stackOf(s) : locOf(I)]++;
  throw PathEnd{1};
}
// a path that does not come to an end: reported under the property being decided
static void noEnd(State &s) {
  if (g_allTags || g_tags.empty()) fatal("a path does not end at %s", stackOf(s).c_str());
  recordViolation(s, (u32)*g_tags.begin() * 100 + 99, s.model, "no end: " + stackOf(s));
  throw PathEnd{1};
}
static inline Val binop(EOp op, const Val &a, const Val &b, unsigned w, bool nuw) {
  if (!a.e && !b.e) {
    u64 m = w >= 64 ? ~0ull : ((1ull << w) - 1); u64 x = a.c, y = b.c;
    switch (op) {
    case E_ADD: return VC((x + y) & m);
    case E_SUB: case E_SUBNB: return VC((x - y) & m);
    case E_MUL: return VC((x * y) & m);
    case E_AND: return VC(x & y);
    case E_OR: return VC(x | y);
    case E_XOR: return VC(x ^ y);
    case E_SHL: return VC(y >= w ? 0 : (x << y) & m);
    case E_LSHR: return VC(y >= w ? 0 : x >> y);
    case E_UDIV: return VC(y ? x / y : m);
    case E_UREM: return VC(y ? x % y : x);
    default: break;
    }
  }
  if (nuw && op == E_SUB) op = E_SUBNB;
  return VE(mkBin(op, EX(a, w), EX(b, w)));
}
static inline Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c;
    switch (pred) {
    case CmpInst::ICMP_EQ: return VC(x == y);
    case CmpInst::ICMP_NE: return VC(x != y);
    case CmpInst::ICMP_ULT: return VC(x < y);
    case CmpInst::ICMP_ULE: return VC(x <= y);
    case CmpInst::ICMP_UGT: return VC(x > y);
    case CmpInst::ICMP_UGE: return VC(x >= y);
    default: break;
    }
  }
  Ex x = EX(a, w), y = EX(b, w), r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = mkBin(E_EQ, x, y); break;
  case CmpInst::ICMP_NE: r = mkNot(mkBin(E_EQ, x, y)); break;
  case CmpInst::ICMP_ULT: r = mkBin(E_ULT, x, y); break;
  case CmpInst::ICMP_ULE: r = mkBin(E_ULE, x, y); break;
  case CmpInst::ICMP_UGT: r = mkBin(E_ULT, y, x); break;
  case CmpInst::ICMP_UGE: r = mkBin(E_ULE, y, x); break;
  case CmpInst::ICMP_SLT: r = mkBin(E_SLT, x, y); break;
  case CmpInst::ICMP_SLE: r = mkBin(E_SLE, x, y); break;
  case CmpInst::ICMP_SGT: r = mkBin(E_SLT, y, x); break;
  case CmpInst::ICMP_SGE: r = mkBin(E_SLE, y, x); break;
  default: fatal("icmp predicate");
  }
  return VE(r);
}
static inline Val select(State &s, const Val &c, const Val &a, const Val &b, unsigned w) {
  if (!c.e) return c.c ? a : b;
  int k = known(s, c.e); if (k >= 0) return k ? a : b;
  Ex x = EX(a, w), y = EX(b, w);
  // saturating subtraction: ite(p<q, k, p-q) -> the subtraction does not borrow where selected
  if (y->op == E_SUB && c.e->op == E_ULT && c.e->k[0] == y->k[0] && c.e->k[1] == y->k[1]) return VE(mkIte(c.e, x, mkBin(E_SUB, y->k[0], mkIte(c.e, y->k[0], y->k[1]))));
  return VE(mkIte(c.e, x, y));
}
static void enter(State &s, Frame &f, int e) {
  Edge &E = f.fn->edges[e];
  if (!E.mv.empty()) {
    if (!E.conflict) for (auto &m : E.mv) f.regs[m.dst] = R(f, m.src);
    else { static std::vector<Val> t; t.clear(); for (auto &m : E.mv) t.push_back(R(f, m.src)); for (size_t i = 0; i < E.mv.size(); i++) f.regs[E.mv[i].dst] = t[i]; }
  }
  f.fn->cov[E.block] = 1;
  f.pc = E.pc;
}
static Val bswapV(const Val &a, unsigned w) {
  if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.c >> (8 * i)) & 255) << (w - 8 - 8 * i); return VC(r); }
  Ex r = nullptr;
  for (unsigned i = 0; i < w / 8; i++) { Ex b = mkExtract(a.e, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
  return VE(r);
}
static u64 readC(State &s, u64 a, unsigned n) { Val v = s.mem.read(a, n); return concretize(s, v, n * 8, "bytes"); }

static void endPath(State &s);
static std::vector<std::string> g_samples;

// returns true if the instruction completed and pc should advance
static bool builtin(State &s, Frame &f, DInst &I) {
  Extra &x = *I.x;
  auto A = [&](int i) -> Val & { return R(f, x.args[i]); };
  auto AC = [&](int i) -> u64 { return concretize(s, A(i), x.argw[i], "argument"); };
  auto set = [&](int i, Val v) { if (I.dst >= 0) f.regs[I.dst + i] = v; };
  unsigned w = x.argw.empty() ? 0 : x.argw[0];
  switch ((Bi)I.sub) {
  case B_NOP: return true;
  case B_ZERO: for (int i = 0; i < I.lanes; i++) set(i, x.slots[i].w <= 64 ? VC(0) : Val{0, mkConst(x.slots[i].w, 0)}); return true;
  case B_IDENT: for (int i = 0; i < I.lanes; i++) set(i, A(i)); return true;
  case B_FTOU: { Val v = A(0); if (v.e || w != 64) fatal("floating point conversion"); double d; memcpy(&d, &v.c, 8); set(0, VC(!(d > 0) ? 0 : d >= 18446744073709551616.0 ? ~0ull : (u64)d)); return true; }
  case B_PANIC: doPanic(s, I.I); return false;
  case B_ERRNO: { set(0, VC(0x1000)); return true; }
  case B_MALLOC: set(0, VC(alloc(s, AC(0), 16))); return true;
  case B_CALLOC: { u64 a = AC(0), b = AC(1); set(0, VC(alloc(s, a * b, 16))); return true; }
  case B_MEMALIGN: { u64 p = AC(0), al = AC(1), n = AC(2); s.mem.write(p, 8, VC(alloc(s, n, al))); set(0, VC(0)); return true; }
  case B_REALLOC: {
    u64 p = AC(0), n = AC(1); u64 q = alloc(s, n, 16);
    if (p) { u64 o = allocSize(s, p); copyMem(s, q, p, std::min(o, n)); s.mem.setValid(p, o, false); }
    set(0, VC(q)); return true;
  }
  case B_FREE: { u64 p = AC(0); if (p) { u64 o = allocSize(s, p); if (o) s.mem.setValid(p, o, false); } return true; }
  case B_MEMCPY: { u64 n = AC(2); u64 d = AC(0), p = AC(1); copyMem(s, d, p, n); if (I.dst >= 0) set(0, VC(d)); return true; }
  case B_MEMSET: {
    u64 n = AC(2), d = AC(0); Val v = A(1);
    if (x.argw[1] > 8) v = v.e ? VE(mkExtract(v.e, 0, 8)) : VC(v.c & 255);
    if (n) {
      if (!v.e) { std::vector<u8> b(n, (u8)v.c); s.mem.writeBytes(d, n, b.data(), nullptr); }
      else for (u64 i = 0; i < n; i++) s.mem.write(d + i, 1, v);
    }
    if (I.dst >= 0) set(0, VC(d)); return true;
  }
  case B_MEMCMP: {
    u64 n = AC(2); u64 p = AC(0), q = AC(1);
    if (!n) { set(0, VC(0)); return true; }
    std::vector<u8> d1(n), d2(n); std::vector<Cell> c1(n), c2(n);
    bool y1 = s.mem.readBytes(p, n, d1.data(), c1.data()), y2 = s.mem.readBytes(q, n, d2.data(), c2.data());
    if (!y1 && !y2) { int r = memcmp(d1.data(), d2.data(), n); set(0, VC((u32)(r < 0 ? -1 : r > 0 ? 1 : 0))); return true; }
    bool isB = x.callee->name == "bcmp";
    Ex r = mkConst(32, 0); Ex all = mkConst(1, 1);
    // process in 8-byte chunks from the end
    std::vector<std::pair<u64, unsigned>> ch; for (u64 i = 0; i < n;) { unsigned k = n - i >= 8 ? 8 : 1; ch.push_back({i, k}); i += k; }
    for (int j = (int)ch.size() - 1; j >= 0; j--) {
      u64 o = ch[j].first; unsigned k = ch[j].second;
      Val a = Mem::combine(&c1[o], &d1[o], k), b = Mem::combine(&c2[o], &d2[o], k);
      Ex ea = EX(a, k * 8), eb = EX(b, k * 8);
      Ex eq = mkBin(E_EQ, ea, eb);
      if (isB) { all = mkBin(E_AND, all, eq); continue; }
      Ex inner = mkBin(E_ULT, k == 1 ? ea : EX(bswapV(a, 64), 64), k == 1 ? eb : EX(bswapV(b, 64), 64));
      r = mkIte(eq, r, mkIte(inner, mkConst(32, 0xffffffffu), mkConst(32, 1)));
    }
    if (isB) r = mkZext(mkNot(all), 32);
    set(0, VE(r)); return true;
  }
  case B_STRLEN: { u64 p = AC(0), n = 0; while (readC(s, p + n, 1)) n++; set(0, VC(n)); return true; }
  case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
    Val a = A(0), b = A(1);
    if (I.lanes != 2) fatal("vector overflow intrinsic");
    if (!a.e && !b.e && w <= 64 && I.sub <= B_UMULO) {
      u128 r = I.sub == B_UADDO ? (u128)a.c + b.c : I.sub == B_UMULO ? (u128)a.c * b.c : (u128)(a.c - b.c);
      bool o = I.sub == B_USUBO ? a.c < b.c : r > maskw(w);
      set(0, VC((u64)(r & maskw(w)))); set(1, VC(o)); return true;
    }
    Ex ea = EX(a, w), eb = EX(b, w), r, o;
    switch (I.sub) {
    case B_UADDO: r = mkBin(E_ADD, ea, eb); o = (r->op == E_ADD || isC(r)) && (ea->hi + eb->hi >= ea->hi && ea->hi + eb->hi <= maskw(w)) ? mkConst(1, 0) : mkBin(E_ULT, r, ea); break;
    case B_USUBO: o = mkBin(E_ULT, ea, eb); r = isC(o) && !o->c ? mkBin(E_SUBNB, ea, eb) : mkBin(E_SUB, ea, eb); break;
    case B_UMULO: r = mkBin(E_MUL, ea, eb); o = mkBin(E_MULH, ea, eb); break;
    default: {
      if (w > 63) fatal("signed overflow intrinsic on symbolic wide values");
      Ex sa = mkSext(ea, w * 2), sb = mkSext(eb, w * 2);
      Ex t = mkBin(I.sub == B_SADDO ? E_ADD : I.sub == B_SSUBO ? E_SUB : E_MUL, sa, sb);
      r = mkExtract(t, 0, w); o = mkNot(mkBin(E_EQ, mkSext(r, w * 2), t));
    }
    }
    set(0, VE(r)); set(1, VE(o)); return true;
  }
  case B_UADDS: case B_USUBS: case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: case B_ABS: {
    for (int i = 0; i < I.lanes; i++) {
      unsigned lw = x.slots[i].w; Ex a = EX(A(i), lw), b = I.sub == B_ABS ? nullptr : EX(A(I.lanes + i), lw), r;
      switch (I.sub) {
      case B_UADDS: { Ex t = mkBin(E_ADD, a, b); bool no = a->hi + b->hi >= a->hi && a->hi + b->hi <= maskw(lw); r = no ? t : mkIte(mkBin(E_ULT, t, a), mkConst(lw, maskw(lw)), t); break; }
      case B_USUBS: { Ex c = mkBin(E_ULT, a, b); int k = known(s, c); if (k == 1) r = mkConst(lw, 0); else if (k == 0) r = mkBin(E_SUBNB, a, b); else r = mkBin(E_SUBNB, a, mkIte(c, a, b)); break; }
      case B_UMIN: r = mkIte(mkBin(E_ULT, a, b), a, b); break;
      case B_UMAX: r = mkIte(mkBin(E_ULT, a, b), b, a); break;
      case B_SMIN: r = mkIte(mkBin(E_SLT, a, b), a, b); break;
      case B_SMAX: r = mkIte(mkBin(E_SLT, a, b), b, a); break;
      default: r = mkIte(mkBin(E_SLT, a, mkConst(lw, 0)), mkBin(E_SUB, mkConst(lw, 0), a), a);
      }
      set(i, VE(r));
    }
    return true;
  }
  case B_CTLZ: case B_CTTZ: case B_CTPOP: {
    for (int i = 0; i < I.lanes; i++) {
      Val a = A(i); unsigned lw = x.slots[i].w;
      if (!a.e) {
        u64 v = a.c, r;
        if (I.sub == B_CTPOP) r = __builtin_popcountll(v); else if (I.sub == B_CTLZ) r = v ? __builtin_clzll(v) - (64 - lw) : lw; else r = v ? __builtin_ctzll(v) : lw;
        set(i, VC(r)); continue;
      }
      Ex r;
      if (I.sub == B_CTPOP) { r = mkConst(lw, 0); for (unsigned k = 0; k < lw; k++) r = mkBin(E_ADD, r, mkZext(mkExtract(a.e, k, 1), lw)); }
      else { r = mkConst(lw, lw); for (unsigned k = 0; k < lw; k++) { unsigned bit = I.sub == B_CTLZ ? k : lw - 1 - k; r = mkIte(mkExtract(a.e, bit, 1), mkConst(lw, I.sub == B_CTLZ ? lw - 1 - k : lw - 1 - k), r); } }
      set(i, VE(r));
    }
    return true;
  }
  case B_BSWAP: for (int i = 0; i < I.lanes; i++) set(i, bswapV(A(i), x.slots[i].w)); return true;
  case B_BITREV: { for (int i = 0; i < I.lanes; i++) { Val a = A(i); if (a.e) fatal("symbolic bitreverse"); u64 r = 0; unsigned lw = x.slots[i].w; for (unsigned k = 0; k < lw; k++) if (a.c >> k & 1) r |= 1ull << (lw - 1 - k); set(i, VC(r)); } return true; }
  case B_FSHL: case B_FSHR: {
    for (int i = 0; i < I.lanes; i++) {
      unsigned lw = x.slots[i].w; Val a = A(i), b = A(I.lanes + i), c = A(2 * I.lanes + i); if (c.e) fatal("symbolic funnel shift amount");
      unsigned sh = c.c % lw;
      if (I.sub == B_FSHR) sh = (lw - sh) % lw, (void)0;
      // fshl by sh (fshr by k == fshl by lw-k, except k==0 gives b)
      if (I.sub == B_FSHR && c.c % lw == 0) { set(i, b); continue; }
      if (sh == 0) { set(i, a); continue; }
      if (!a.e && !b.e && lw <= 64) { u64 m = lw == 64 ? ~0ull : (1ull << lw) - 1; set(i, VC(((a.c << sh) | (b.c >> (lw - sh))) & m)); continue; }
      set(i, VE(mkConcat(mkExtract(EX(a, lw), 0, lw - sh), mkExtract(EX(b, lw), lw - sh, sh))));
    }
    return true;
  }
  case B_LOADREL: { u64 p = AC(0), o = AC(1); int32_t d = (int32_t)readC(s, p + o, 4); set(0, VC(p + (int64_t)d)); return true; }
  case B_PTRMASK: { set(0, binop(E_AND, A(0), A(1), 64, false)); return true; }
  case B_REDUCE: {
    Val r = A(0); EOp op; Intrinsic::ID id = x.fn->getIntrinsicID();
    if (id == Intrinsic::vector_reduce_umax || id == Intrinsic::vector_reduce_umin) {
      for (size_t i = 1; i < x.args.size(); i++) { Ex a = EX(r, w), b = EX(A(i), w); Ex lt = mkBin(E_ULT, a, b); r = VE(id == Intrinsic::vector_reduce_umax ? mkIte(lt, b, a) : mkIte(lt, a, b)); }
      set(0, r); return true;
    }
    op = id == Intrinsic::vector_reduce_add ? E_ADD : id == Intrinsic::vector_reduce_or ? E_OR : id == Intrinsic::vector_reduce_and ? E_AND : E_XOR;
    for (size_t i = 1; i < x.args.size(); i++) r = binop(op, r, A(i), w, false);
    set(0, r); return true;
  }
  // ---- harness interface
  case B_SYM: {
    u64 lo = AC(0), hi = AC(1);
    if (g_replay) {
      if (s.inputs.size() >= g_replayVals.size()) fatal("replay file too short");
      u64 v = g_replayVals[s.inputs.size()]; s.inputs.push_back({1, v}); set(0, VC(v)); if (v < lo || v > hi) throw PathEnd{2}; return true;
    }
    if (lo > hi) throw PathEnd{2};
    if (lo == hi) { s.inputs.push_back({1, lo}); set(0, VC(lo)); return true; }
    unsigned idx = s.vars.size(); Ex v = mkVar(idx, 64, lo, hi);
    s.vars.push_back(v); s.model.push_back(lo); s.inputs.push_back({0, idx}); set(0, VE(v)); return true;
  }
  case B_CHOOSE: {
    u64 n = AC(0);
    if (g_replay) { if (s.inputs.size() >= g_replayVals.size()) fatal("replay file too short"); u64 v = g_replayVals[s.inputs.size()]; s.inputs.push_back({1, v}); set(0, VC(v)); return true; }
    if (n == 0) throw PathEnd{2};
    u64 v;
    if (s.forced != ~0ull) { v = s.forced; s.forced = ~0ull; }
    else { v = 0; for (u64 i = n; i-- > 1;) { State *g = new State(s); g->forced = i; enqueue(g); } }
    s.inputs.push_back({1, v}); set(0, VC(v)); return true;
  }
  case B_ASSUME: {
    Val c = A(0); if (x.argw[0] > 1) c = VE(mkNot(mkBin(E_EQ, EX(c, x.argw[0]), mkConst(x.argw[0], 0))));
    if (!c.e) { if (!c.c) throw PathEnd{2}; return true; }
    int k = known(s, c.e); if (k == 1) return true; if (k == 0) throw PathEnd{2};
    if (!evalEx(c.e, s.model)) { std::vector<u64> m = s.model; if (query(s, c.e, m) != R_SAT) throw PathEnd{2}; s.model = m; }
    addPC(s, c.e); return true;
  }
  case B_CHECK: {
    u32 tag = (u32)AC(0);
    if (!g_allTags && !g_tags.count(tag / 100)) return true;
    Val c = A(1); if (x.argw[1] > 1) c = VE(mkNot(mkBin(E_EQ, EX(c, x.argw[1]), mkConst(x.argw[1], 0))));
    auto &st = g_checks[tag]; st[0]++;
    if (!c.e) { st[1]++; if (!c.c) { recordViolation(s, tag, s.model, stackOf(s)); throw PathEnd{0}; } return true; }
    int k = known(s, c.e); if (k == 1) { st[1]++; return true; }
    checkStop();
    st[2]++;
    Ex n = mkNot(c.e);
    if (evalEx(n, s.model)) { recordViolation(s, tag, s.model, stackOf(s)); throw PathEnd{0}; }
    std::vector<u64> m = s.model;
    if (queryCheck(s, n, m) == R_SAT) { recordViolation(s, tag, m, stackOf(s)); throw PathEnd{0}; }
    return true;
  }
  case B_PTAG: { u32 t = (u32)AC(0); set(0, VC(g_allTags || g_tags.count(t))); return true; }
  case B_COVER: { g_covers[(u32)AC(0)]++; return true; }
  case B_TRACE: s.trace.push_back(A(0)); return true;
  case B_LOG: { u64 t = AC(0); Val v = A(1); fprintf(stderr, "[log %llu] %s\n", (unsigned long long)t, v.e ? exStr(v.e).c_str() : std::to_string(v.c).c_str()); return true; }
  case B_PANICMODE: s.panicTag = (u32)AC(0); return true;
  case B_CONCRETE: set(0, VC(AC(0))); return true;
  case B_ARG: { u64 i = AC(0); set(0, VC(i < g_args.size() ? g_args[i] : 0)); return true; }
  case B_DONE: throw PathEnd{0};
  default: fatal("builtin %d (%s)", I.sub, x.callee->name.c_str());
  }
}
static void pushFrame(State &s, DFn *d, const std::vector<Val> &args, int retDst) {
  ensure(d);
  if (s.st.size() > 400) noEnd(s);
  s.st.emplace_back(); Frame &n = s.st.back();
  n.fn = d; n.pc = 0; n.regs.resize(d->nregs); n.sp = s.sp; n.retDst = retDst;
  for (size_t i = 0; i < args.size() && (int)i < d->nparams; i++) n.regs[i] = args[i];
  d->cov[0] = 1;
}
static u64 g_maxSteps = 12000000;

static void step(State &s) {
  Frame *f = &s.st.back();
  for (;;) {
    DInst &I = f->fn->code[f->pc];
    g_st.instr++; g_curI = I.I;
    if (++s.steps > g_maxSteps) noEnd(s);
    switch (I.op) {
    case K_NOP: break;
    case K_BIN:
      if (I.lanes == 1 && I.sub == E_SUB && I.w == 64 && !I.flags) {
        Val a = R(*f, I.a), b = R(*f, I.b);
        f->regs[I.dst] = binop(E_SUB, a, b, 64, (a.e || b.e) && noBorrow(s, EX(a, 64), EX(b, 64)));
        break;
      }
      if (I.lanes == 1) f->regs[I.dst] = binop((EOp)I.sub, R(*f, I.a), R(*f, I.b), I.w, I.flags);
      else for (int i = 0; i < I.lanes; i++) f->regs[I.dst + i] = binop((EOp)I.sub, R(*f, Decoder::lane(I.a, i)), R(*f, Decoder::lane(I.b, i)), I.w, I.flags);
      break;
    case K_FLOAT: {
      Val va = R(*f, I.a), vb = R(*f, I.b);
      if (va.e || vb.e) fatal("floating point operation on a symbolic value");
      double a, b, r = 0; memcpy(&a, &va.c, 8); memcpy(&b, &vb.c, 8); u64 o = 0; bool isF = true;
      switch (I.sub) {
      case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; case Instruction::FNeg: r = -a; break;
      case Instruction::UIToFP: r = (double)va.c; break;
      case Instruction::SIToFP: r = (double)((int64_t)(va.c << (64 - I.w2)) >> (64 - I.w2)); break;
      case Instruction::FPToUI: isF = false; o = (u64)a; break;
      case Instruction::FPToSI: isF = false; o = (u64)(int64_t)a; break;
      default: isF = false; { bool un = a != a || b != b; unsigned p = I.flags; o = ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b) || ((p & 8) && un); }
      }
      if (isF) memcpy(&o, &r, 8);
      f->regs[I.dst] = VC(I.w >= 64 ? o : o & ((1ull << I.w) - 1));
      break;
    }
    case K_ICMP:
      if (I.lanes == 1) f->regs[I.dst] = icmp(I.sub, R(*f, I.a), R(*f, I.b), I.w);
      else for (int i = 0; i < I.lanes; i++) f->regs[I.dst + i] = icmp(I.sub, R(*f, Decoder::lane(I.a, i)), R(*f, Decoder::lane(I.b, i)), I.w);
      break;
    case K_SELECT:
      for (int i = 0; i < I.lanes; i++) f->regs[I.dst + i] = select(s, R(*f, I.flags ? Decoder::lane(I.c, i) : I.c), R(*f, Decoder::lane(I.a, i)), R(*f, Decoder::lane(I.b, i)), I.x->slots[i].w);
      break;
    case K_MOVE: for (int i = 0; i < I.lanes; i++) f->regs[I.dst + i] = R(*f, Decoder::lane(I.a, i)); break;
    case K_TRUNC:
      for (int i = 0; i < I.lanes; i++) {
        Val v = R(*f, Decoder::lane(I.a, i));
        f->regs[I.dst + i] = v.e ? VE(mkExtract(v.e, 0, I.w)) : VC(v.c & (I.w >= 64 ? ~0ull : (1ull << I.w) - 1));
      }
      break;
    case K_ZEXT:
      for (int i = 0; i < I.lanes; i++) {
        Val v = R(*f, Decoder::lane(I.a, i));
        f->regs[I.dst + i] = v.e ? VE(mkZext(v.e, I.w)) : I.w <= 64 ? v : Val{0, mkConst(I.w, v.c)};
      }
      break;
    case K_SEXT:
      for (int i = 0; i < I.lanes; i++) { Val v = R(*f, Decoder::lane(I.a, i)); Ex r = mkSext(EX(v, I.w2), I.w); f->regs[I.dst + i] = VE(r); }
      break;
    case K_WIDEEQ: {
      Ex r = mkConst(1, 1);
      for (int i = 0; i < I.c; i++) r = mkBin(E_AND, r, mkBin(E_EQ, EX(R(*f, Decoder::lane(I.a, i)), 64), EX(R(*f, Decoder::lane(I.b, i)), 64)));
      f->regs[I.dst] = VE(I.sub == CmpInst::ICMP_EQ ? r : mkNot(r));
      break;
    }
    case K_BITCASTV: {
      std::vector<Val> out; unsigned o = 0;
      for (size_t i = 0; i < I.x->slots.size(); i++) { // gather the bits of each result lane from the source lanes
        unsigned w = I.x->slots[i].w; Ex r = nullptr;
        for (unsigned k = 0; k < w;) {
          int at = (int)(o + k) + I.e1; Ex e; unsigned n; // I.e1: constant shift (right when positive)
          if (at < 0) { n = std::min(w - k, (unsigned)-at); e = mkConst(n, 0); }
          else if (at >= I.lanes * I.w) { n = w - k; e = mkConst(n, 0); }
          else { unsigned li = at / I.w, lo = at % I.w; n = std::min(w - k, I.w - lo); e = mkExtract(EX(R(*f, Decoder::lane(I.a, li)), I.w), lo, n); }
          r = r ? mkConcat(e, r) : e; k += n;
        }
        o += w; out.push_back(VE(r));
      }
      for (size_t i = 0; i < out.size(); i++) f->regs[I.dst + i] = out[i];
      break;
    }
    case K_LOAD: {
      u64 p = concretize(s, R(*f, I.a), 64, "load address"); unsigned n = (I.w + 7) / 8;
      Val v = s.mem.read(p, n);
      if (I.w != n * 8) v = v.e ? VE(mkExtract(v.e, 0, I.w)) : VC(v.c & ((1ull << I.w) - 1));
      f->regs[I.dst] = v; break;
    }
    case K_STORE: {
      u64 p = concretize(s, R(*f, I.a), 64, "store address"); unsigned n = (I.w + 7) / 8; Val v = R(*f, I.b);
      if (I.w != n * 8 && v.e) v = VE(mkZext(v.e, n * 8));
      s.mem.write(p, n, v); break;
    }
    case K_LOADV: {
      u64 p = concretize(s, R(*f, I.a), 64, "load address");
      for (size_t i = 0; i < I.x->slots.size(); i++) { unsigned w = I.x->slots[i].w, n = (w + 7) / 8; Val v = s.mem.read(p + I.x->slots[i].off, n); if (w != n * 8) v = v.e ? VE(mkExtract(v.e, 0, w)) : VC(v.c & ((1ull << w) - 1)); f->regs[I.dst + i] = v; }
      break;
    }
    case K_STOREV: {
      u64 p = concretize(s, R(*f, I.a), 64, "store address");
      for (size_t i = 0; i < I.x->slots.size(); i++) { unsigned w = I.x->slots[i].w, n = (w + 7) / 8; Val v = R(*f, Decoder::lane(I.b, i)); if (w != n * 8 && v.e) v = VE(mkZext(v.e, n * 8)); s.mem.write(p + I.x->slots[i].off, n, v); }
      break;
    }
    case K_ALLOCA: {
      u64 n = concretize(s, R(*f, I.a), 64, "alloca size") * I.x->bi_addr; u64 al = std::max<u64>(16, I.e0);
      u64 a = (s.sp + 16 + al - 1) / al * al; s.sp = a + n + 16;
      if (s.sp >= 0xE0000000ull) fatal("stack exhausted");
      if (n) { s.mem.setValid(a, n, true); }
      f->regs[I.dst] = VC(a); break;
    }
    case K_GEP: {
      Val b = R(*f, I.a); u64 off = I.x->bi_addr; Ex se = nullptr;
      for (size_t i = 0; i < I.x->gep.size(); i++) {
        Val v = R(*f, I.x->gep[i].first); unsigned w = I.x->gepw[i];
        if (!v.e) { int64_t iv = w == 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - w)) >> (64 - w); off += (u64)iv * I.x->gep[i].second; }
        else { Ex t = mkBin(E_MUL, mkSext(v.e, 64), mkConst(64, I.x->gep[i].second)); se = se ? mkBin(E_ADD, se, t) : t; }
      }
      if (!b.e && !se) f->regs[I.dst] = VC(b.c + off);
      else { Ex r = EX(b, 64); if (se) r = mkBin(E_ADD, r, se); r = mkBin(E_ADD, r, mkConst(64, off)); f->regs[I.dst] = VE(r); }
      break;
    }
    case K_EXTRACTEL: { u64 i = concretize(s, R(*f, I.b), 64, "vector index"); f->regs[I.dst] = R(*f, Decoder::lane(I.a, i)); break; }
    case K_INSERTEL: { u64 k = concretize(s, R(*f, I.c), 64, "vector index"); Val nv = R(*f, I.b); for (int i = 0; i < I.lanes; i++) f->regs[I.dst + i] = R(*f, Decoder::lane(I.a, i)); f->regs[I.dst + k] = nv; break; }
    case K_SHUFFLE: {
      std::vector<Val> t;
      for (int m : I.x->mask) t.push_back(m < 0 ? VC(0) : m < I.lanes ? R(*f, Decoder::lane(I.a, m)) : R(*f, Decoder::lane(I.b, m - I.lanes)));
      for (size_t i = 0; i < t.size(); i++) f->regs[I.dst + i] = t[i];
      break;
    }
    case K_CMPXCHG: {
      u64 p = concretize(s, R(*f, I.a), 64, "address"); Val o = s.mem.read(p, I.w / 8); Val c = icmp(CmpInst::ICMP_EQ, o, R(*f, I.b), I.w);
      bool eq = c.e ? decide(s, c.e) : c.c; if (eq) s.mem.write(p, I.w / 8, R(*f, I.c));
      f->regs[I.dst] = o; f->regs[I.dst + 1] = VC(eq); break;
    }
    case K_RMW: {
      u64 p = concretize(s, R(*f, I.a), 64, "address"); Val o = s.mem.read(p, I.w / 8), v = R(*f, I.b), n;
      switch (I.sub) {
      case AtomicRMWInst::Xchg: n = v; break;
      case AtomicRMWInst::Add: n = binop(E_ADD, o, v, I.w, false); break;
      case AtomicRMWInst::Sub: n = binop(E_SUB, o, v, I.w, false); break;
      case AtomicRMWInst::And: n = binop(E_AND, o, v, I.w, false); break;
      case AtomicRMWInst::Or: n = binop(E_OR, o, v, I.w, false); break;
      case AtomicRMWInst::Xor: n = binop(E_XOR, o, v, I.w, false); break;
      default: fatal("atomicrmw %d", I.sub);
      }
      s.mem.write(p, I.w / 8, n); f->regs[I.dst] = o; break;
    }
    case K_BR: enter(s, *f, I.e0); continue;
    case K_CBR: { Val c = R(*f, I.a); bool t = c.e ? decide(s, c.e) : c.c; enter(s, *f, t ? I.e0 : I.e1); continue; }
    case K_SWITCH: {
      Val v = R(*f, I.a); int e = I.e0;
      if (!v.e) { for (auto &c : I.x->cases) if ((u64)c.first == v.c) { e = c.second; break; } }
      else {
        // group cases by destination
        std::vector<std::pair<int, Ex>> g; Ex any = mkConst(1, 0);
        for (auto &c : I.x->cases) {
          Ex eq = mkBin(E_EQ, v.e, mkConst(I.w, c.first)); any = mkBin(E_OR, any, eq);
          bool found = false; for (auto &q : g) if (q.first == c.second) { q.second = mkBin(E_OR, q.second, eq); found = true; }
          if (!found) g.push_back({c.second, eq});
        }
        for (auto &q : g) if (q.first != I.e0) { if (isC(q.second) ? q.second->c : decide(s, q.second)) { e = q.first; break; } }
      }
      enter(s, *f, e); continue;
    }
    case K_RET: {
      static std::vector<Val> rv; rv.clear();
      for (int i = 0; i < I.lanes; i++) rv.push_back(R(*f, Decoder::lane(I.a, i)));
      if (s.sp > f->sp) s.mem.setValid(f->sp, s.sp - f->sp, false);
      // stale stack bytes are zeroed lazily: undefined contents read as whatever was there
      s.sp = f->sp; int rd = f->retDst;
      s.st.pop_back();
      if (s.st.empty()) throw PathEnd{0};
      f = &s.st.back();
      if (rd >= 0) for (size_t i = 0; i < rv.size(); i++) f->regs[rd + i] = rv[i];
      f->pc++; continue;
    }
    case K_UNREACHABLE: doPanic(s, I.I); return;
    case K_ICALL: case K_CALL: {
      DFn *d = I.x->callee;
      if (I.op == K_ICALL) {
        u64 a = concretize(s, R(*f, I.a), 64, "call target");
        auto it = g_fnByAddr.find(a); if (it == g_fnByAddr.end()) fatal("indirect call to %llx at %s", (unsigned long long)a, stackOf(s).c_str());
        d = it->second;
        if (d->builtin != B_NONE) { DInst J = I; Extra ex = *I.x; ex.callee = d; ex.fn = d->F; J.x = &ex; J.op = K_BUILTIN; J.sub = d->builtin; builtin(s, *f, J); break; }
      }
      static std::vector<Val> args; args.clear();
      for (int a : I.x->args) args.push_back(R(*f, a));
      if (g_traceCalls) fprintf(stderr, "%*s%s\n", (int)s.st.size(), "", d->name.c_str());
      pushFrame(s, d, args, I.dst); f = &s.st.back(); continue;
    }
    case K_BUILTIN: builtin(s, *f, I); break;
    case K_UNSUPPORTED: fatal("unsupported instruction %s in %s", I.x->msg.c_str(), f->fn->name.c_str());
    default: fatal("op");
    }
    f->pc++;
  }
}

// ---- results ---------------------------------------------------------------------------
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r; }
static void writeResults() {
  char fn[512]; snprintf(fn, 512, "%s/w%d.json", g_outdir.c_str(), getpid());
  FILE *o = fopen(fn, "w"); if (!o) { perror(fn); _exit(3); }
  fprintf(o, "{\"paths\":%llu,\"ret\":%llu,\"panics\":%llu,\"assumed\":%llu,\"instr\":%llu,\"forks\":%llu,\"incomplete\":%llu,\"exprs\":%llu,\"maxpc\":%llu,\"simp\":%llu,",
    (unsigned long long)g_st.paths, (unsigned long long)g_st.retp, (unsigned long long)g_st.panics, (unsigned long long)g_st.assumed, (unsigned long long)g_st.instr, (unsigned long long)g_st.forks, (unsigned long long)g_st.incomplete, (unsigned long long)exprCount(), (unsigned long long)g_st.maxpc, (unsigned long long)g_st.simp);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"external\":%llu,\"lia\":%llu,\"liaunsat\":%llu,\"canon\":%llu,\"stime\":%.3f,\"smax\":%.3f,", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.external, (unsigned long long)g_ss.lia, (unsigned long long)g_ss.liaUnsat, (unsigned long long)g_canonHits, g_ss.time, g_ss.maxTime);
  fprintf(o, "\"checks\":{"); bool c = false;
  for (auto &p : g_checks) { fprintf(o, "%s\"%u\":[%llu,%llu,%llu]", c ? "," : "", p.first, (unsigned long long)p.second[0], (unsigned long long)p.second[1], (unsigned long long)p.second[2]); c = true; }
  fprintf(o, "},\"covers\":{"); c = false;
  for (auto &p : g_covers) { fprintf(o, "%s\"%u\":%llu", c ? "," : "", p.first, (unsigned long long)p.second); c = true; }
  fprintf(o, "},\"panicloc\":{"); c = false;
  for (auto &p : g_panicLoc) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", esc(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(o, "},\"violations\":["); c = false;
  for (auto &v : g_viol) {
    fprintf(o, "%s{\"tag\":%u,\"loc\":\"%s\",\"vals\":[", c ? "," : "", v.tag, esc(v.loc).c_str()); c = true;
    for (size_t i = 0; i < v.vals.size(); i++) fprintf(o, "%s\"%llu\"", i ? "," : "", (unsigned long long)v.vals[i]);
    fprintf(o, "]}");
  }
  fprintf(o, "],\"samples\":["); c = false;
  for (auto &s : g_samples) { fprintf(o, "%s%s", c ? "," : "", s.c_str()); c = true; }
  // source functions executed (from debug info of covered blocks)
  std::set<std::string> fs;
  for (auto &p : g_fns) { DFn *d = p.second; if (!d->decoded) continue;
    for (size_t b = 0; b < d->blocks.size(); b++) if (d->cov[b]) for (const Instruction &I : *d->blocks[b]) {
      for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) if (auto *sp = L->getScope()->getSubprogram()) {
        std::string f = sp->getFilename().str(); if (starts(f, "src/") || has(f, "/repo/src/") || has(f, "sokoban")) { if (sp->getDirectory().find("harness") != StringRef::npos && starts(f, "src/")) continue; fs.insert(f.substr(f.rfind("src/")) + "::" + sp->getName().str()); }
      } } }
  fprintf(o, "],\"functions\":["); c = false;
  for (auto &s : fs) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
  fprintf(o, "]}\n"); fclose(o);
}
static void endPath(State &s) {
  // sample of completed paths for native cross-validation
  if (g_sampleEvery && g_samples.size() < g_maxSamples && (g_st.paths % g_sampleEvery) == 0) {
    std::string r = "{\"vals\":["; bool c = false; char b[32];
    for (auto &i : s.inputs) { snprintf(b, 32, "%s\"%llu\"", c ? "," : "", (unsigned long long)(i.kind == 0 ? s.model[i.v] : i.v)); r += b; c = true; }
    r += "],\"trace\":["; c = false;
    for (auto &v : s.trace) { u64 x = v.e ? (u64)evalEx(v.e, s.model) : v.c; snprintf(b, 32, "%s\"%llu\"", c ? "," : "", (unsigned long long)x); r += b; c = true; }
    g_samples.push_back(r + "]}");
  }
}
static double g_lastDonate = 0;
static void maybeDonate() {
  if (g_jobs <= 1 || g_work.size() < 2) return;
  if (g_sh->active >= (int)g_jobs) return;
  double t = now(); if (t - g_lastDonate < 0.02) return;
  g_lastDonate = t;
  int a = __sync_add_and_fetch(&g_sh->active, 1);
  if (a > (int)g_jobs) { __sync_fetch_and_sub(&g_sh->active, 1); return; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&g_sh->active, 1); return; }
  size_t n = g_work.size();
  if (p == 0) {
    // child keeps every other oldest state
    std::deque<State *> mine; for (size_t i = 0; i < n; i += 2) mine.push_back(g_work[i]);
    g_work.swap(mine);
    g_st = Stats(); g_ss = SolverStats(); g_canonHits = g_absHits = 0; for (auto &c : g_checks) c.second = {0, 0, 0}; for (auto &c : g_covers) c.second = 0; g_panicLoc.clear(); g_viol.clear(); g_samples.clear();
    for (auto &f : g_fns) std::fill(f.second->cov.begin(), f.second->cov.end(), 0);
  } else {
    std::deque<State *> mine; for (size_t i = 1; i < n; i += 2) mine.push_back(g_work[i]);
    for (size_t i = 0; i < n; i += 2) delete g_work[i];
    g_work.swap(mine);
  }
}
static void worker() {
  while (!g_work.empty()) {
    if (g_sh->stop) break;
    if (g_deadline && now() > g_deadline) { g_st.incomplete += g_work.size(); break; }
    maybeDonate();
    State *s = g_work.back(); g_work.pop_back();
    try { step(*s); }
    catch (PathEnd &e) {
      if (e.kind == 4) { g_st.incomplete++; delete s; continue; }
      if (e.kind == 0) { g_st.retp++; endPath(*s); } else if (e.kind == 1) { g_st.panics++; endPath(*s); } else g_st.assumed++;
      g_st.paths++;
      if (g_replay) {
        printf("end %s\n", e.kind == 0 ? "ok" : e.kind == 1 ? "panic" : "assume");
        for (auto &v : s->trace) printf("trace %llu\n", (unsigned long long)v.c);
      }
    } catch (MemErr &m) {
      fatal("invalid memory access at %llx size %llu (%s) at %s", (unsigned long long)m.addr, (unsigned long long)m.n, m.write ? "write" : "read", stackOf(*s).c_str());
    }
    delete s;
  }
  g_st.incomplete += g_work.size();
  writeResults();
  fflush(stdout); fflush(stderr);
  __sync_fetch_and_sub(&g_sh->active, 1);
}

static pid_t g_root;
int main(int argc, char **argv) {
  std::string bc; double tlimit = 0; std::string vals;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[++i]; };
    if (a == "--bc") bc = nx(); else if (a == "--entry") g_entry = nx(); else if (a == "--out") g_outdir = nx(); else if (a == "--jobs") g_jobs = atoi(nx().c_str());
    else if (a == "--args") { std::string v = nx(); char *p = (char *)v.c_str(); while (*p) { g_args.push_back(strtoull(p, &p, 10)); if (*p == ',') p++; } }
    else if (a == "--tags") { g_allTags = false; std::string v = nx(); char *p = (char *)v.c_str(); while (*p) { g_tags.insert(strtoull(p, &p, 10)); if (*p == ',') p++; } }
    else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--trace-calls") g_traceCalls = true; else if (a == "--slow") g_dumpSlow = atoi(nx().c_str());
    else if (a == "--logic") g_logic = strdup(nx().c_str()); else if (a == "--rlimit") g_rlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--reset") g_resetEvery = atoi(nx().c_str());
    else if (a == "--samples") { g_maxSamples = atoi(nx().c_str()); g_sampleEvery = 1; } else if (a == "--sample-every") g_sampleEvery = atoi(nx().c_str());
    else if (a == "--all") g_stopFirst = false; else if (a == "--replay") { g_replay = true; vals = nx(); } else if (a == "--panics") g_panicDump = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  g_tmpdir = g_outdir;
  if (g_replay) { FILE *f = fopen(vals.c_str(), "r"); if (!f) { perror("replay"); return 3; } unsigned long long v; while (fscanf(f, "%llu", &v) == 1) g_replayVals.push_back(v); fclose(f); g_jobs = 1; }
  g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SMDiagnostic err;
  g_mod = parseIRFile(bc, err, g_ctx);
  if (!g_mod) { err.print("px", errs()); return 3; }
  { // the bitcode reader of LLVM 18 upgrades the layout of rustc 1.75 (LLVM 17) to 16-byte aligned i128: undo that
    std::string d = g_mod->getDataLayoutStr(); size_t q = d.find("-i128:128"); if (q != std::string::npos) d.erase(q, 9);
    g_mod->setDataLayout(d);
  }
  DL = &g_mod->getDataLayout();
  // globals
  u64 ga = 0x10000;
  g_initMem.setValid(0x1000, 8, true); // errno
  for (GlobalVariable &G : g_mod->globals()) {
    u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value()); u64 sz = DL->getTypeAllocSize(G.getValueType());
    ga = (ga + al - 1) / al * al; g_gaddr[&G] = ga; if (sz) g_initMem.setValid(ga, sz, true); ga += sz + 16;
    if (ga > 0x1f000000) fatal("globals too large");
  }
  for (GlobalVariable &G : g_mod->globals()) if (G.hasInitializer()) initGlobalBytes(G.getInitializer(), g_gaddr[&G], g_initMem);
  solverInit();
  Function *F = g_mod->getFunction(g_entry);
  if (!F) { fprintf(stderr, "px: no entry %s\n", g_entry.c_str()); return 3; }
  if (tlimit) g_deadline = now() + tlimit;
  State *s = new State; s->mem = g_initMem; pushFrame(*s, getFn(F), {}, -1);
  g_work.push_back(s);
  g_sh->active = 1;
  prctl(PR_SET_PDEATHSIG, SIGTERM);
  pid_t root = fork();
  if (root == 0) { setpgid(0, 0); worker(); _exit(0); }
  // the first process only waits for every worker (orphans included); when it is ended, so are they
  g_root = root; signal(SIGTERM, [](int) { kill(-g_root, SIGKILL); _exit(4); }); signal(SIGINT, [](int) { kill(-g_root, SIGKILL); _exit(4); });
  int st; waitpid(root, &st, 0);
  while (g_sh->active > 0) usleep(2000);
  if (g_sh->err) { fprintf(stderr, "px: error: %s\n", g_sh->errmsg); return 3; }
  return 0;
}
