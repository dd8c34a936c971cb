// vpx: bounded symbolic execution of LLVM IR with z3.
//
// Every input drawn by the harness is a bit-vector variable. Execution forks where both outcomes of a
// branch are feasible under the path condition; every assertion, memory access, allocation release and
// trap is a query "can this fail for some input on this path". A run that ends with status "complete" has
// decided every assertion for all inputs admitted by the harness.
#include "expr.h"
#include "solver.h"
#include "sweep.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <chrono>
#include <memory>
#include <map>
#include <set>
#include <list>
#include <pthread.h>
#include <atomic>
#include <csignal>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static double nowS()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Val {E e = nullptr; std::shared_ptr<std::vector<Val>> agg;};
enum Kind : uint8_t {GLOBAL, CONSTG, HEAP, STACK, TLS, VARARGS};
struct Obj {uint64_t base, size; Kind kind; std::vector<E> b; std::string name; bool ro = false;};
typedef std::shared_ptr<Obj> ObjP;

struct Opd {int reg = -1; bool undef = false; Type * ty = nullptr; Val c;};
struct Ins {Instruction * I; int dst = -1; std::vector<Opd> ops; bool sync = false; Function * callee = nullptr; int builtin = 0;};
struct Block {int start; std::vector<std::pair<int, std::map<const BasicBlock *, Opd>>> phis;};
struct FInfo {
  Function * F; int nregs = 0; std::vector<Ins> code; std::map<const BasicBlock *, Block> blocks;
  bool entered = false;
};
struct Frame {
  FInfo * f; int pc; const BasicBlock * bb; std::vector<Val> r; std::vector<uint64_t> allocas;
  std::vector<Val> va; int retReg = -1;
};
struct Thread {std::vector<Frame> st; bool done = false; std::map<const GlobalVariable *, uint64_t> tls;};
typedef std::bitset<256> Dom;
struct State {
  std::vector<Thread> th; int cur = 0;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> cs; std::vector<uint32_t> known;   // known: sorted ids of conditions that hold
  std::shared_ptr<Model> model;
  std::vector<uint8_t> widths;      // of every variable
  std::vector<uint32_t> inputs;     // variable indices drawn by the harness, in order
  std::map<uint32_t, Dom> dom; std::set<uint32_t> tangled;
  uint64_t nextAddr = 0x100000000ULL;
  uint64_t steps = 0; unsigned depth = 0;
  bool syncDone = false; unsigned preempt = 0;
  std::vector<uint8_t> sched;
};

// ---- globals -------------------------------------------------------------------------------------
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout * DL;
static std::map<const Function *, std::unique_ptr<FInfo>> finfos;
static std::map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, Function *> faddr;
static Solver * solver;
static Evaluator ev;
static std::vector<std::unique_ptr<State>> work;
static std::map<std::string, uint64_t> params;
static uint64_t maxSteps = 5000000, gSteps = 0, gForks = 0, gPaths = 0, gKilled = 0, gAsserts = 0, gChecks = 0;
static uint64_t gUnknown = 0;
static unsigned nParts = 1; static bool finishedAlone = true;
static unsigned maxPreempt = 1000;
static double timeLimit = 60, tStart;
static unsigned maxErrors = 6, maxSamples = 8;
static bool stopAll = false, verbose = false;
struct Report {std::string kind, msg, loc, stack; std::vector<uint64_t> inputs; std::vector<uint8_t> sched;};
static std::map<std::string, Report> reports;
static std::map<std::string, std::vector<uint64_t>> covers;
static std::set<std::string> coverSeen, unmodelled;
static std::vector<std::vector<uint64_t>> samples;
static std::vector<std::vector<uint8_t>> sampleSched;
static const uint64_t GAP = 0x10000;

static std::string esc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += (char)c;} else if (c < 32) {char b[8]; snprintf(b, 8, "\\u%04x", c); o += b;} else {o += (char)c;}
  }
  return o;
}
static unsigned widthOf(Type * t)
{
  if (t->isPointerTy()) {return 64;}
  if (t->isIntegerTy()) {return t->getIntegerBitWidth();}
  if (t->isDoubleTy()) {return 64;}
  if (t->isFloatTy()) {return 32;}
  return 0;
}
static std::string locOf(const State & s)
{
  const Thread & t = s.th[s.cur];
  for (int i = (int)t.st.size() - 1; i >= 0; --i) {
    const Frame & f = t.st[i];
    int pc = i == (int)t.st.size() - 1 ? f.pc : f.pc - 1;
    if (pc < 0 || pc >= (int)f.f->code.size()) {continue;}
    if (const DILocation * l = f.f->code[pc].I->getDebugLoc()) {
      std::string fn = l->getFilename().str();
      if (fn.find("/lib/") != std::string::npos && i > 0) {continue;}   // models: report the caller
      return fn + ":" + std::to_string(l->getLine());
    }
  }
  return "?";
}
static std::string stackOf(const State & s)
{
  std::string r;
  const Thread & t = s.th[s.cur];
  for (int i = (int)t.st.size() - 1; i >= 0; --i) {
    const Frame & f = t.st[i];
    int pc = i == (int)t.st.size() - 1 ? f.pc : f.pc - 1;
    if (!r.empty()) {r += " < ";}
    r += f.f->F->getName().str();
    if (pc >= 0 && pc < (int)f.f->code.size()) {
      if (const DILocation * l = f.f->code[pc].I->getDebugLoc()) {r += ":" + std::to_string(l->getLine());}
    }
  }
  return r;
}
static std::vector<uint64_t> inputsOf(const State & s, const Model & m)
{
  std::vector<uint64_t> v;
  for (uint32_t i : s.inputs) {v.push_back(m.get(i) & maskw(s.widths[i]));}
  return v;
}
static void report(const State & s, const std::string & kind, const std::string & msg, const Model & m)
{
  std::string loc = locOf(s);
  std::string key = kind + "|" + msg + "|" + loc;
  if (reports.count(key)) {return;}
  Report r{kind, msg, loc, stackOf(s), inputsOf(s, m), s.sched};
  reports[key] = r;
  if (verbose) {fprintf(stderr, "REPORT %s\n  %s\n", key.c_str(), r.stack.c_str());}
  if (reports.size() >= maxErrors) {stopAll = true;}
}
static void unmodel(const State & s, const std::string & what)
{
  unmodelled.insert(what + " at " + locOf(s));
  if (verbose) {fprintf(stderr, "UNMODELLED %s at %s (%s)\n", what.c_str(), locOf(s).c_str(), stackOf(s).c_str());}
}

// ---- constraints ---------------------------------------------------------------------------------
static bool isKnown(const State & s, E c) {return std::binary_search(s.known.begin(), s.known.end(), c->id);}
static E iteKnown(const State & s, E c, E a, E b)     // a selection whose condition the path already decides
{
  if (isKnown(s, c)) {return a;}
  if (isKnown(s, mkNot(c))) {return b;}
  return mkIte(c, a, b);
}
static void setKnown(State & s, E c)
{
  auto it = std::lower_bound(s.known.begin(), s.known.end(), c->id);
  if (it == s.known.end() || *it != c->id) {s.known.insert(it, c->id);}
}
static std::unordered_map<uint32_t, Dom> satSets;
static bool isByteVar(const State & s, E c) {return c->var >= 0 && s.widths[c->var] <= 8;}
static const Dom & satSet(E c, unsigned varw)
{
  auto it = satSets.find(c->id);
  if (it != satSets.end()) {return it->second;}
  Dom d;
  Model m;
  m.v.assign((size_t)c->var + 1, 0);
  static Evaluator e2;
  unsigned n = varw >= 8 ? 256 : 1u << varw;
  for (unsigned i = 0; i < n; ++i) {
    m.v[c->var] = i;
    e2.setModel(&m);
    if (e2.eval(c)) {d.set(i);}
  }
  return satSets[c->id] = d;
}
static std::unordered_map<uint32_t, std::vector<uint32_t>> varSets;
static void collectVars(E e, std::set<uint32_t> & out, std::unordered_set<uint32_t> & seen)
{
  if (e->var == -1 || !seen.insert(e->id).second) {return;}
  if (e->var >= 0) {out.insert((uint32_t)e->var); return;}
  if (e->a) {collectVars(e->a, out, seen);}
  if (e->b) {collectVars(e->b, out, seen);}
  if (e->c) {collectVars(e->c, out, seen);}
}
static Dom fullDom(unsigned w) {Dom d; unsigned n = w >= 8 ? 256 : 1u << w; for (unsigned i = 0; i < n; ++i) {d.set(i);} return d;}
static Dom domOf(const State & s, uint32_t v)
{
  auto it = s.dom.find(v);
  return it == s.dom.end() ? fullDom(s.widths[v]) : it->second;
}
static void addC(State & s, E c)
{
  if (isC(c, 1) || isKnown(s, c)) {return;}
  if (c->op == AND && c->w == 1) {addC(s, c->a); addC(s, c->b); setKnown(s, c); return;}
  s.cs.push_back(c);
  setKnown(s, c);
  if (isByteVar(s, c)) {
    s.dom[c->var] = domOf(s, c->var) & satSet(c, s.widths[c->var]);
  } else {
    std::set<uint32_t> vs; std::unordered_set<uint32_t> seen;
    collectVars(c, vs, seen);
    s.tangled.insert(vs.begin(), vs.end());
  }
}
static uint64_t evalM(const State & s, E e)
{
  static uint64_t id = ~0ULL;
  if (id != s.model->id) {ev.setModel(s.model.get()); id = s.model->id;} else {ev.m = s.model.get();}
  return ev.eval(e);
}
static const size_t BIG_TERM = 1500;
// Verdicts "impossible" reached without the solver are handed to it as well, as many as gConfirmMax.
static uint64_t gConfirmMax = 5000, gConfirmed = 0, gRefuted = 0;
static int impossible(State & s, E c)
{
  static unsigned given_up = 0;
  if (gConfirmed < gConfirmMax && given_up < 6 && dagSize(c, BIG_TERM) < BIG_TERM) {
    Model m;
    int r = solver->check(s.cs, c, s.widths.size(), s.widths, &m, 500);
    if (r < 0) {given_up++; return 0;}
    gConfirmed++;
    if (r == 1) {gRefuted++; return -1;}
  }
  return 0;
}
// Is c satisfiable together with the path condition? 1 yes (model in out), 0 no, -1 unknown.
static int feasible(State & s, E c, std::shared_ptr<Model> & out)
{
  if (isC(c)) {if (c->val) {out = s.model; return 1;} return 0;}
  if (isKnown(s, c)) {solver->st.syntactic++; out = s.model; return 1;}
  if (isKnown(s, mkNot(c))) {solver->st.syntactic++; return impossible(s, c);}
  if (evalM(s, c)) {solver->st.model_hits++; out = s.model; return 1;}
  if (isByteVar(s, c)) {
    Dom d = domOf(s, c->var) & satSet(c, s.widths[c->var]);
    if (d.none()) {solver->st.domain++; return impossible(s, c);}
    if (!s.tangled.count(c->var)) {
      solver->st.domain++;
      out = std::make_shared<Model>(*s.model);
      if (out->v.size() <= (size_t)c->var) {out->v.resize(c->var + 1, 0);}
      out->v[c->var] = d._Find_first();
      return 1;
    }
  }
  auto m = std::make_shared<Model>();
  if (dagSize(c, BIG_TERM) >= BIG_TERM) {     // too large for the solver in one piece
    if (randomWitness(s.cs, c, s.widths.size(), *s.model, *m)) {
      for (size_t i = 0; i < m->v.size(); ++i) {m->v[i] &= maskw(s.widths[i]);}
      solver->st.model_hits++; out = std::make_shared<Model>(*m); return 1;
    }
    c = sweep(*solver, c, 30);
    if (isC(c, 0)) {return 0;}
    if (dagSize(c, 4 * BIG_TERM) >= 4 * BIG_TERM) {gUnknown++; return -1;}
  }
  int r = solver->check(s.cs, c, s.widths.size(), s.widths, m.get());
  if (r == 1) {out = m; return 1;}
  if (r < 0) {gUnknown++;}
  return r;
}
static void setModel(State & s, const std::shared_ptr<Model> & m) {s.model = m;}

static E freshVar(State & s, unsigned w, bool input)
{
  uint32_t i = (uint32_t)s.widths.size();
  s.widths.push_back((uint8_t)w);
  if (input) {s.inputs.push_back(i);}
  return mkVar(i, w);
}
static State * forkState(State & s)
{
  auto n = std::make_unique<State>(s);
  n->depth++; gForks++;
  State * p = n.get();
  work.push_back(std::move(n));
  return p;
}
// 1: c holds on s from here (other side forked away), 0: it cannot hold (state unchanged)
static bool concretize(State & s, E e, uint64_t & v)
{
  if (isC(e)) {v = e->val; return true;}
  v = evalM(s, e);
  E eq = mkEq(e, mkConst(v, e->w));
  std::shared_ptr<Model> m;
  if (feasible(s, mkNot(eq), m) == 1) {
    State * n = forkState(s);
    addC(*n, mkNot(eq));
    setModel(*n, m);
  }
  addC(s, eq);
  return true;
}
// Require c on this path: report kind/msg if it can fail. Returns false if the path cannot continue.
static bool require(State & s, E c, const std::string & kind, const std::string & msg)
{
  gChecks++;
  if (isC(c, 1)) {return true;}
  std::shared_ptr<Model> m;
  int r = feasible(s, mkNot(c), m);
  if (r == 1) {report(s, kind, msg, *m);}
  if (r == 0) {return true;}
  if (stopAll || (r == 1 && dagSize(c, BIG_TERM) >= BIG_TERM)) {return false;}
  std::shared_ptr<Model> m2;
  if (feasible(s, c, m2) != 1) {return false;}
  addC(s, c);
  setModel(s, m2);
  return true;
}

// ---- memory --------------------------------------------------------------------------------------
static ObjP newObj(State & s, uint64_t size, Kind k, const std::string & name, bool zero)
{
  auto o = std::make_shared<Obj>();
  o->base = s.nextAddr; o->size = size; o->kind = k; o->name = name;
  o->b.assign(size, zero ? mkConst(0, 8) : nullptr);
  s.nextAddr += (size + GAP + 4095) & ~(uint64_t)4095;
  s.mem[o->base] = o;
  return o;
}
static ObjP find(State & s, uint64_t a)
{
  auto it = s.mem.upper_bound(a);
  if (it == s.mem.begin()) {return nullptr;}
  --it;
  if (a - it->second->base <= it->second->size) {return it->second;}
  return nullptr;
}
static ObjP nearest(State & s, uint64_t a)
{
  auto it = s.mem.upper_bound(a);
  ObjP up = it != s.mem.end() ? it->second : nullptr, dn;
  if (it != s.mem.begin()) {--it; dn = it->second;}
  uint64_t du = up && up->base - a < GAP / 4 ? up->base - a : ~0ULL;
  uint64_t dd = ~0ULL;
  if (dn) {uint64_t end = dn->base + dn->size; dd = a <= end ? 0 : (a - end < GAP / 4 ? a - end : ~0ULL);}
  if (du == ~0ULL && dd == ~0ULL) {return nullptr;}
  return dd <= du ? dn : up;
}
static Obj & writable(State & s, ObjP & o)
{
  if (o.use_count() > 2) {       // map + local
    o = std::make_shared<Obj>(*o);
    s.mem[o->base] = o;
  }
  return *o;
}
static E byteAt(State & s, ObjP & o, uint64_t i)
{
  if (!o->b[i]) {
    Obj & w = writable(s, o);
    w.b[i] = freshVar(s, 8, false);   // uninitialised: arbitrary
  }
  return o->b[i];
}

struct Ref {ObjP o; bool sym = false; uint64_t off = 0; E offE = nullptr; std::vector<uint64_t> offs;};
// Resolve an access of n bytes. Returns false when the path ends here (error reported) or was forked.
static bool resolve(State & s, E addr, uint64_t n, bool write, Ref & r)
{
  if (!isC(addr)) {
    uint64_t k = 0; ObjP o;
    if (addr->op == ADD && isC(addr->a)) {k = addr->a->val; o = nearest(s, k);}
    if (o && k >= 0x10000000ULL) {
      E off = mkAdd(addr, mkConst(0 - o->base, 64));
      if (o->size < n) {
        std::shared_ptr<Model> m = s.model;
        report(s, "memory", "out-of-bounds access of " + o->name, *m);
        return false;
      }
      if (!require(s, mkUle(off, mkConst(o->size - n, 64)), "memory", std::string("out-of-bounds ") + (write ? "write to " : "read of ") + o->name)) {
        return false;
      }
      if (isC(off)) {r.o = o; r.off = off->val; goto have;}
      // enumerate the feasible offsets
      std::vector<uint64_t> offs;
      std::shared_ptr<Model> m = s.model;
      E excl = mkTrue();
      Evaluator e3;
      for (;;) {
        e3.setModel(m.get());
        uint64_t v = e3.eval(off);
        offs.push_back(v);
        if (offs.size() > 96) {break;}
        excl = mkAnd(excl, mkNe(off, mkConst(v, 64)));
        if (isC(excl, 0)) {break;}
        std::shared_ptr<Model> m2;
        int f = feasible(s, excl, m2);
        if (f != 1) {break;}
        m = m2;
      }
      if (offs.size() > 96) {
        offs.clear();
        for (uint64_t i = 0; i + n <= o->size; ++i) {offs.push_back(i);}
      }
      std::sort(offs.begin(), offs.end());
      r.o = o; r.sym = offs.size() > 1; r.off = offs[0]; r.offE = off; r.offs = offs;
      if (write && o->ro) {report(s, "memory", "write to read-only " + o->name, *s.model); return false;}
      return true;
    }
    uint64_t v;
    concretize(s, addr, v);
    addr = mkConst(v, 64);
  }
  {
    uint64_t a = addr->val;
    r.o = find(s, a);
    if (!r.o) {
      report(s, "memory", a < 4096 ? "null pointer access" : std::string("invalid or stale pointer ") + (write ? "write" : "read"), *s.model);
      return false;
    }
    r.off = a - r.o->base;
    if (r.off + n > r.o->size) {
      report(s, "memory", std::string("out-of-bounds ") + (write ? "write to " : "read of ") + r.o->name, *s.model);
      return false;
    }
  }
have:
  if (write && r.o->ro) {report(s, "memory", "write to read-only " + r.o->name, *s.model); return false;}
  return true;
}
static E readBytes(State & s, ObjP & o, uint64_t off, unsigned n)
{
  E e = byteAt(s, o, off);
  if (e->op == EXTRACT) {
    // the bytes of one value, in place: put it back together in one go
    unsigned i = 1;
    for (; i < n; ++i) {
      E x = byteAt(s, o, off + i);
      if (x->op != EXTRACT || x->a != e->a || x->val != e->val + 8 * i) {break;}
    }
    if (i == n) {return mkExtract(e->a, (unsigned)e->val, 8 * n);}
    e = mkExtract(e->a, (unsigned)e->val, 8);
  }
  for (unsigned i = 1; i < n; ++i) {e = mkConcat(byteAt(s, o, off + i), e);}
  return e;
}
static bool loadScalar(State & s, E addr, unsigned bits, E & out)
{
  unsigned n = (bits + 7) / 8;
  Ref r;
  if (!resolve(s, addr, n, false, r)) {return false;}
  E e;
  if (!r.sym) {e = readBytes(s, r.o, r.off, n);} else {
    e = readBytes(s, r.o, r.offs.back(), n);
    for (int i = (int)r.offs.size() - 2; i >= 0; --i) {
      e = mkIte(mkEq(r.offE, mkConst(r.offs[i], 64)), readBytes(s, r.o, r.offs[i], n), e);
    }
  }
  out = bits == n * 8 ? e : mkExtract(e, 0, bits);
  return true;
}
static void putBytes(Obj & o, uint64_t off, E v, unsigned n)
{
  // the lowest byte of a sum stays an extract of it (see readBytes)
  bool sum = n > 1 && (v->op == ADD || v->op == MUL);
  for (unsigned i = 0; i < n; ++i) {o.b[off + i] = sum ? intern(EXTRACT, 8, i * 8, v) : mkExtract(v, i * 8, 8);}
}
static bool storeScalar(State & s, E addr, E v)
{
  unsigned n = (v->w + 7u) / 8u;
  Ref r;
  if (!resolve(s, addr, n, true, r)) {return false;}
  if (v->w != n * 8) {v = mkZext(v, n * 8);}
  if (!r.sym) {
    Obj & o = writable(s, r.o);
    putBytes(o, r.off, v, n);
  } else {
    for (uint64_t of : r.offs) {
      E c = mkEq(r.offE, mkConst(of, 64));
      for (unsigned i = 0; i < n; ++i) {
        E old = byteAt(s, r.o, of + i);
        Obj & o = writable(s, r.o);
        o.b[of + i] = mkIte(c, mkExtract(v, i * 8, 8), old);
      }
    }
  }
  return true;
}
static bool loadVal(State & s, E addr, Type * t, Val & out)
{
  if (unsigned w = widthOf(t)) {
    if (w > 64) {unmodel(s, "wide load"); return false;}
    return loadScalar(s, addr, w, out.e);
  }
  out.agg = std::make_shared<std::vector<Val>>();
  unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
  for (unsigned i = 0; i < n; ++i) {
    Type * et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
    Val v;
    if (!loadVal(s, mkAdd(addr, mkConst(off, 64)), et, v)) {return false;}
    out.agg->push_back(v);
  }
  return true;
}
static bool storeVal(State & s, E addr, Type * t, const Val & v)
{
  if (unsigned w = widthOf(t)) {
    if (w > 64) {unmodel(s, "wide store"); return false;}
    return storeScalar(s, addr, v.e);
  }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
  for (unsigned i = 0; i < n; ++i) {
    Type * et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
    if (!storeVal(s, mkAdd(addr, mkConst(off, 64)), et, (*v.agg)[i])) {return false;}
  }
  return true;
}

// ---- constants -----------------------------------------------------------------------------------
static Val constVal(const Constant * c);
static Val zeroVal(Type * t)
{
  Val v;
  if (unsigned w = widthOf(t)) {v.e = mkConst(0, w > 64 ? 64 : w); return v;}
  v.agg = std::make_shared<std::vector<Val>>();
  if (t->isStructTy()) {for (Type * e : cast<StructType>(t)->elements()) {v.agg->push_back(zeroVal(e));}}
  else if (t->isArrayTy()) {for (uint64_t i = 0; i < t->getArrayNumElements(); ++i) {v.agg->push_back(zeroVal(t->getArrayElementType()));}}
  return v;
}
static uint64_t constAddr(const Constant * c)
{
  Val v = constVal(c);
  return v.e->val;
}
static Val constVal(const Constant * c)
{
  Val v;
  Type * t = c->getType();
  if (auto * i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) {v.e = mkConst(i->getValue().trunc(64).getZExtValue(), 64);} else {v.e = mkConst(i->getZExtValue(), i->getBitWidth());}
    return v;
  }
  if (auto * f = dyn_cast<ConstantFP>(c)) {
    v.e = mkConst(f->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t)); return v;
  }
  if (isa<ConstantPointerNull>(c)) {v.e = mkConst(0, 64); return v;}
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {return zeroVal(t);}
  if (auto * g = dyn_cast<GlobalValue>(c)) {
    if (auto * al = dyn_cast<GlobalAlias>(g)) {return constVal(al->getAliasee());}
    auto it = gaddr.find(g);
    v.e = mkConst(it == gaddr.end() ? 0 : it->second, 64);
    return v;
  }
  if (auto * cd = dyn_cast<ConstantDataSequential>(c)) {
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); ++i) {v.agg->push_back(constVal(cd->getElementAsConstant(i)));}
    return v;
  }
  if (isa<ConstantAggregate>(c)) {
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < c->getNumOperands(); ++i) {v.agg->push_back(constVal(cast<Constant>(c->getOperand(i))));}
    return v;
  }
  if (auto * ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
          APInt off(64, 0);
          cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
          v.e = mkConst(constAddr(cast<Constant>(ce->getOperand(0))) + off.getZExtValue(), 64);
          return v;
        }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
          Val x = constVal(cast<Constant>(ce->getOperand(0)));
          unsigned w = widthOf(t);
          v.e = w < x.e->w ? mkExtract(x.e, 0, w) : mkZext(x.e, w);
          return v;
        }
      case Instruction::Trunc: v.e = mkExtract(constVal(cast<Constant>(ce->getOperand(0))).e, 0, widthOf(t)); return v;
      case Instruction::Sub: v.e = mkSub(constVal(cast<Constant>(ce->getOperand(0))).e, constVal(cast<Constant>(ce->getOperand(1))).e); return v;
      case Instruction::Add: v.e = mkAdd(constVal(cast<Constant>(ce->getOperand(0))).e, constVal(cast<Constant>(ce->getOperand(1))).e); return v;
      default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n";
  exit(70);
}
static void writeConst(std::vector<E> & b, uint64_t off, Type * t, const Val & v)
{
  if (unsigned w = widthOf(t)) {
    unsigned n = (w + 7) / 8;
    E e = v.e->w == n * 8 ? v.e : mkZext(v.e, n * 8);
    for (unsigned i = 0; i < n; ++i) {b[off + i] = mkExtract(e, i * 8, 8);}
    return;
  }
  for (unsigned i = 0; i < v.agg->size(); ++i) {
    Type * et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    uint64_t eo = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
    writeConst(b, off + eo, et, (*v.agg)[i]);
  }
}

// ---- builtins ------------------------------------------------------------------------------------
enum Builtin {
  B_NONE, B_IN, B_ASSUME, B_ASSERT, B_COVER, B_CONC, B_CHOOSE, B_PARAM, B_HALLOC, B_HFREE, B_HSIZE, B_ENGINE,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRLEN, B_STRCMP, B_STRNCMP, B_MEMCMP, B_ABORT, B_ASSERTFAIL, B_TRAP, B_IGNORE,
  B_VASTART, B_VACOPY, B_SOVF, B_TLSADDR, B_SPAWN, B_JOIN, B_TID, B_EXPECT, B_MINMAX, B_CTPOP, B_BSWAP, B_FSH, B_OBJSIZE,
  B_ABS, B_PRINT, B_READONLY, B_KILL, B_CTZ, B_ISCONST, B_YIELD, B_PREFIX
};
static std::map<std::string, int> builtinNames = {
  {"vp_in64", B_IN}, {"vp_in32", B_IN}, {"vp_in8", B_IN}, {"vp_in1", B_IN}, {"vp_assume_", B_ASSUME},
  {"vp_assert_", B_ASSERT}, {"vp_cover_", B_COVER}, {"vp_concretize", B_CONC}, {"vp_choose", B_CHOOSE},
  {"vp_param", B_PARAM}, {"vp_heap_alloc", B_HALLOC}, {"vp_heap_free", B_HFREE}, {"vp_heap_size", B_HSIZE},
  {"vp_engine", B_ENGINE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"strlen", B_STRLEN},
  {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"abort", B_ABORT}, {"exit", B_ABORT},
  {"__assert_fail", B_ASSERTFAIL}, {"vp_spawn", B_SPAWN}, {"vp_join_all", B_JOIN}, {"vp_thread_id", B_TID},
  {"vp_print", B_PRINT}, {"vp_readonly", B_READONLY}, {"vp_kill_path", B_KILL}, {"vp_is_const", B_ISCONST},
  {"vp_yield", B_YIELD}, {"_exit", B_ABORT}, {"_Exit", B_ABORT}
};
static int builtinOf(const Function * F)
{
  std::string n = F->getName().str();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
      case Intrinsic::memmove: return B_MEMMOVE;
      case Intrinsic::memset: return B_MEMSET;
      case Intrinsic::vastart: return B_VASTART;
      case Intrinsic::vacopy: return B_VACOPY;
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: return B_SOVF;
      case Intrinsic::threadlocal_address: return B_TLSADDR;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_TRAP;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: return B_EXPECT;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return B_MINMAX;
      case Intrinsic::ctpop: return B_CTPOP;
      case Intrinsic::cttz: case Intrinsic::ctlz: return B_CTZ;
      case Intrinsic::bswap: return B_BSWAP;
      case Intrinsic::fshl: case Intrinsic::fshr: return B_FSH;
      case Intrinsic::abs: return B_ABS;
      case Intrinsic::objectsize: return B_OBJSIZE;
      default: break;
    }
    return B_IGNORE;
  }
  auto it = builtinNames.find(n);
  return it == builtinNames.end() ? B_NONE : it->second;
}
static FInfo * prepare(Function * F)
{
  auto & p = finfos[F];
  if (p) {return p.get();}
  p = std::make_unique<FInfo>();
  FInfo * fi = p.get();
  fi->F = F;
  std::map<const Value *, int> idx;
  for (auto & a : F->args()) {idx[&a] = fi->nregs++;}
  for (auto & bb : *F) {for (auto & I : bb) {if (!I.getType()->isVoidTy()) {idx[&I] = fi->nregs++;}}}
  auto mk = [&](const Value * v) {
      Opd o; o.ty = v->getType();
      auto it = idx.find(v);
      if (it != idx.end()) {o.reg = it->second; return o;}
      if (isa<UndefValue>(v) && widthOf(o.ty)) {o.undef = true; return o;}
      if (auto * c = dyn_cast<Constant>(v)) {o.c = constVal(c);}
      return o;
    };
  for (auto & bb : *F) {
    Block b; b.start = (int)fi->code.size();
    for (auto & I : bb) {
      if (auto * ph = dyn_cast<PHINode>(&I)) {
        std::map<const BasicBlock *, Opd> m;
        for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) {m[ph->getIncomingBlock(i)] = mk(ph->getIncomingValue(i));}
        b.phis.push_back({idx[ph], m});
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) {continue;}
      if (auto * ci = dyn_cast<IntrinsicInst>(&I)) {
        switch (ci->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::vaend: case Intrinsic::assume:
          case Intrinsic::donothing: continue;
          default: break;
        }
      }
      Ins n; n.I = &I;
      auto it = idx.find(&I);
      if (it != idx.end()) {n.dst = it->second;}
      for (auto & o : I.operands()) {
        if (isa<BasicBlock>(o.get()) || isa<MetadataAsValue>(o.get()) || isa<InlineAsm>(o.get())) {n.ops.push_back(Opd()); continue;}
        n.ops.push_back(mk(o.get()));
      }
      if (auto * cb = dyn_cast<CallBase>(&I)) {
        n.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (n.callee) {n.builtin = builtinOf(n.callee);}
      }
      if (I.hasMetadata("vp.sync")) {n.sync = true;}
      fi->code.push_back(n);
    }
    fi->blocks[&bb] = b;
  }
  return fi;
}
static Val opd(State & s, const Frame & f, const Opd & o)
{
  if (o.reg >= 0) {return f.r[o.reg];}
  if (o.undef) {Val v; unsigned w = widthOf(o.ty); v.e = freshVar(s, w > 64 ? 64 : w, false); return v;}
  return o.c;
}
static void jump(State & s, Frame & f, const BasicBlock * to)
{
  Block & b = f.f->blocks[to];
  std::vector<Val> tmp;
  for (auto & p : b.phis) {tmp.push_back(opd(s, f, p.second.at(f.bb)));}
  for (size_t i = 0; i < tmp.size(); ++i) {f.r[b.phis[i].first] = tmp[i];}
  f.bb = to;
  f.pc = b.start;
}
static void pushCall(State & s, Thread & t, Function * F, const std::vector<Val> & args, int retReg)
{
  FInfo * fi = prepare(F);
  fi->entered = true;
  Frame f;
  f.f = fi; f.bb = &F->getEntryBlock(); f.pc = fi->blocks[f.bb].start; f.r.resize(fi->nregs); f.retReg = retReg;
  unsigned n = (unsigned)F->arg_size();
  for (unsigned i = 0; i < args.size(); ++i) {
    if (i < n) {f.r[i] = args[i];} else {f.va.push_back(args[i]);}
  }
  for (unsigned i = 0; i < n && i < args.size(); ++i) {
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i));
      Ref r;
      if (isC(args[i].e)) {
        ObjP src = find(s, args[i].e->val);
        if (src && args[i].e->val - src->base + sz <= src->size) {
          ObjP o = newObj(s, sz, STACK, "by-value argument", false);
          for (uint64_t k = 0; k < sz; ++k) {o->b[k] = src->b[args[i].e->val - src->base + k];}
          f.r[i].e = mkConst(o->base, 64);
          f.allocas.push_back(o->base);
        }
      }
    }
  }
  t.st.push_back(std::move(f));
}
static bool cstr(State & s, E p, std::string & out)
{
  out.clear();
  if (!isC(p)) {return false;}
  for (uint64_t a = p->val;; ++a) {
    ObjP o = find(s, a);
    if (!o || a - o->base >= o->size) {return false;}
    E b = o->b[a - o->base];
    if (!b || !isC(b)) {return false;}
    if (b->val == 0) {return true;}
    out += (char)b->val;
  }
}
static bool fbits(Type * t, uint64_t raw, double & d)
{
  if (t->isFloatTy()) {float f; uint32_t r = (uint32_t)raw; memcpy(&f, &r, 4); d = f; return true;}
  memcpy(&d, &raw, 8); return true;
}
static uint64_t rawOf(Type * t, double d)
{
  if (t->isFloatTy()) {float f = (float)d; uint32_t r; memcpy(&r, &f, 4); return r;}
  uint64_t r; memcpy(&r, &d, 8); return r;
}

enum Res {NEXT, JUMPED, ENDED, AGAIN};

// merged comparison of two byte strings; kind: 0 strcmp, 1 strncmp, 2 memcmp
static Res doCompare(State & s, E pa, E pb, E nE, int kind, E & out)
{
  uint64_t a, b, n = ~0ULL;
  concretize(s, pa, a); concretize(s, pb, b);
  if (kind) {
    concretize(s, nE, n);
    if (n == 0) {out = mkConst(0, 32); return NEXT;}
  }
  ObjP oa = find(s, a), ob = find(s, b);
  if (!oa || !ob) {report(s, "memory", "comparison reads through an invalid or null pointer", *s.model); return ENDED;}
  uint64_t ia = a - oa->base, ib = b - ob->base;
  if (kind == 2 && (ia + n > oa->size || ib + n > ob->size)) {
    report(s, "memory", "comparison reads out of bounds of " + (ia + n > oa->size ? oa : ob)->name, *s.model); return ENDED;
  }
  struct Step {E ne, sign, z;};
  std::vector<Step> st;
  E reach = mkTrue();
  for (uint64_t i = 0; i < n; ++i) {
    if (ia + i >= oa->size || ib + i >= ob->size) {
      // reading on requires everything so far equal and non-zero
      if (!require(s, mkNot(reach), "memory", "string comparison reads out of bounds of " + (ia + i >= oa->size ? oa : ob)->name)) {return ENDED;}
      break;
    }
    E x = byteAt(s, oa, ia + i);
    ob = find(s, b);
    E y = byteAt(s, ob, ib + i);
    oa = find(s, a);
    E ne = mkNe(x, y);
    E sign = mkIte(mkUlt(x, y), mkConst(~0ULL, 32), mkConst(1, 32));
    E z = kind == 2 ? mkFalse() : mkEq(x, mkConst(0, 8));
    st.push_back({ne, sign, z});
    if (isC(ne, 1) || isC(z, 1)) {break;}
    reach = mkAnd(reach, mkAnd(mkNot(ne), mkNot(z)));
    if (isC(reach, 0)) {break;}
    // a byte already known to end one string
    if (isKnown(s, z) || isKnown(s, ne)) {break;}
    if (kind != 2 && isKnown(s, mkEq(y, mkConst(0, 8)))) {break;}
  }
  E r = mkConst(0, 32);
  for (int i = (int)st.size() - 1; i >= 0; --i) {
    r = mkIte(st[i].ne, st[i].sign, mkIte(st[i].z, mkConst(0, 32), r));
  }
  out = r;
  return NEXT;
}
static Res doCopy(State & s, E d, E sp, E nE, bool overlapOk)
{
  uint64_t n;
  concretize(s, nE, n);
  if (n == 0) {return NEXT;}
  uint64_t a, b;
  concretize(s, d, a); concretize(s, sp, b);
  if (n > 0x10000000ULL) {report(s, "memory", "copy of an enormous size", *s.model); return ENDED;}
  Ref rs, rd;
  if (!resolve(s, mkConst(b, 64), n, false, rs)) {return ENDED;}
  if (!resolve(s, mkConst(a, 64), n, true, rd)) {return ENDED;}
  if (!overlapOk && a != b && a < b + n && b < a + n) {
    report(s, "memory", "memcpy between overlapping regions", *s.model); return ENDED;
  }
  std::vector<E> tmp(rs.o->b.begin() + rs.off, rs.o->b.begin() + rs.off + n);
  rs.o.reset();
  Obj & o = writable(s, rd.o);
  std::copy(tmp.begin(), tmp.end(), o.b.begin() + rd.off);
  return NEXT;
}

static Res callBuiltin(State & s, Frame & f, Ins & in, std::vector<Val> & a)
{
  auto * cb = cast<CallBase>(in.I);
  auto ret = [&](E e) {if (in.dst >= 0) {f.r[in.dst].e = e; f.r[in.dst].agg.reset();}};
  switch (in.builtin) {
    case B_IN: ret(freshVar(s, widthOf(cb->getType()), true)); return NEXT;
    case B_ASSUME: {
        E c = a[0].e->w == 1 ? a[0].e : mkNe(a[0].e, mkConst(0, a[0].e->w));
        std::shared_ptr<Model> m;
        if (feasible(s, c, m) != 1) {gKilled++; return ENDED;}
        addC(s, c); setModel(s, m);
        return NEXT;
      }
    case B_ASSERT: {
        E c = a[0].e->w == 1 ? a[0].e : mkNe(a[0].e, mkConst(0, a[0].e->w));
        std::string msg;
        cstr(s, a[1].e, msg);
        gAsserts++;
        return require(s, c, "property", msg) ? NEXT : ENDED;
      }
    case B_COVER: {
        E c = a[0].e->w == 1 ? a[0].e : mkNe(a[0].e, mkConst(0, a[0].e->w));
        std::string l;
        cstr(s, a[1].e, l);
        coverSeen.insert(l);
        if (!covers.count(l)) {
          std::shared_ptr<Model> m;
          if (feasible(s, c, m) == 1) {covers[l] = inputsOf(s, *m);}
        }
        return NEXT;
      }
    case B_CONC: {
        E e = a[0].e; uint64_t v;
        concretize(s, e, v); ret(mkConst(v, e->w)); return NEXT;
      }
    case B_CHOOSE: {
        // fork over 0..n-1
        uint64_t n;
        concretize(s, a[0].e, n);
        if (n == 0) {gKilled++; return ENDED;}
        E v = freshVar(s, 32, true);
        uint32_t vi = s.inputs.back();
        for (uint64_t i = n - 1; i >= 1; --i) {
          State * o = forkState(s);
          auto m = std::make_shared<Model>(*s.model);
          if (m->v.size() <= vi) {m->v.resize(vi + 1, 0);}
          m->v[vi] = i;
          addC(*o, mkEq(v, mkConst(i, 32)));
          setModel(*o, m);
          Frame & of = o->th[o->cur].st.back();
          if (in.dst >= 0) {of.r[in.dst].e = mkConst(i, 32);}
          of.pc++;
        }
        auto m = std::make_shared<Model>(*s.model);
        if (m->v.size() <= vi) {m->v.resize(vi + 1, 0);}
        m->v[vi] = 0;
        addC(s, mkEq(v, mkConst(0, 32)));
        setModel(s, m);
        ret(mkConst(0, 32));
        return NEXT;
      }
    case B_PARAM: {
        std::string n; cstr(s, a[0].e, n);
        auto it = params.find(n);
        ret(mkConst(it == params.end() ? (isC(a[1].e) ? a[1].e->val : 0) : it->second, widthOf(cb->getType())));
        return NEXT;
      }
    case B_HALLOC: {
        uint64_t n; concretize(s, a[0].e, n);
        if (n > (1u << 22)) {ret(mkConst(0, 64)); return NEXT;}
        ObjP o = newObj(s, n, HEAP, "heap block of " + std::to_string(n) + " bytes allocated at " + locOf(s), false);
        ret(mkConst(o->base, 64)); return NEXT;
      }
    case B_HFREE: {
        uint64_t p; concretize(s, a[0].e, p);
        if (p == 0) {return NEXT;}
        auto it = s.mem.find(p);
        if (it == s.mem.end() || it->second->kind != HEAP) {
          report(s, "memory", "release of a pointer that is not a live block (double or invalid free)", *s.model); return ENDED;
        }
        s.mem.erase(it);
        return NEXT;
      }
    case B_HSIZE: {
        uint64_t p; concretize(s, a[0].e, p);
        auto it = s.mem.find(p);
        if (it == s.mem.end() || it->second->kind != HEAP) {
          report(s, "memory", "reallocation of a pointer that is not a live block", *s.model); return ENDED;
        }
        ret(mkConst(it->second->size, 64)); return NEXT;
      }
    case B_ENGINE: ret(mkConst(1, widthOf(cb->getType()))); return NEXT;
    case B_ISCONST: ret(mkConst(isC(a[0].e), widthOf(cb->getType()))); return NEXT;
    case B_MEMCPY: {Res r = doCopy(s, a[0].e, a[1].e, a[2].e, false); if (r == NEXT && in.dst >= 0) {ret(a[0].e);} return r;}
    case B_MEMMOVE: {Res r = doCopy(s, a[0].e, a[1].e, a[2].e, true); if (r == NEXT && in.dst >= 0) {ret(a[0].e);} return r;}
    case B_MEMSET: {
        uint64_t n; concretize(s, a[2].e, n);
        if (n) {
          uint64_t p; concretize(s, a[0].e, p);
          if (n > 0x10000000ULL) {report(s, "memory", "memset of an enormous size", *s.model); return ENDED;}
          Ref r;
          if (!resolve(s, mkConst(p, 64), n, true, r)) {return ENDED;}
          Obj & o = writable(s, r.o);
          E v = mkExtract(a[1].e, 0, 8);
          for (uint64_t i = 0; i < n; ++i) {o.b[r.off + i] = v;}
        }
        if (in.dst >= 0) {ret(a[0].e);}
        return NEXT;
      }
    case B_STRLEN: {
        uint64_t p; concretize(s, a[0].e, p);
        ObjP o = find(s, p);
        if (!o) {report(s, "memory", "strlen of an invalid or null pointer", *s.model); return ENDED;}
        for (uint64_t i = p - o->base;; ++i) {
          if (i >= o->size) {report(s, "memory", "strlen runs past the end of " + o->name, *s.model); return ENDED;}
          E b = byteAt(s, o, i);
          E z = mkEq(b, mkConst(0, 8));
          if (isC(z, 1)) {ret(mkConst(i - (p - o->base), 64)); return NEXT;}
          if (isC(z, 0)) {continue;}
          std::shared_ptr<Model> mt, mf;
          int ft = feasible(s, z, mt), ff = feasible(s, mkNot(z), mf);
          if (ft == 1 && ff == 1) {
            State * n = forkState(s);
            addC(*n, mkNot(z)); setModel(*n, mf);
            addC(s, z); setModel(s, mt);
            ret(mkConst(i - (p - o->base), 64)); return NEXT;
          }
          if (ft == 1) {addC(s, z); setModel(s, mt); ret(mkConst(i - (p - o->base), 64)); return NEXT;}
          if (ff != 1) {return ENDED;}
        }
      }
    case B_STRCMP: case B_STRNCMP: case B_MEMCMP: {
        E out = nullptr;
        Res r = doCompare(s, a[0].e, a[1].e, in.builtin == B_STRCMP ? nullptr : a[2].e,
            in.builtin == B_STRCMP ? 0 : in.builtin == B_STRNCMP ? 1 : 2, out);
        if (r == NEXT) {ret(out);}
        return r;
      }
    case B_ABORT: report(s, "abort", "the program aborts or exits", *s.model); return ENDED;
    case B_ASSERTFAIL: {std::string e; cstr(s, a[0].e, e); report(s, "abort", "assert(" + e + ") fails", *s.model); return ENDED;}
    case B_TRAP: report(s, "undefined", "undefined behaviour (signed overflow, shift or division)", *s.model); return ENDED;
    case B_IGNORE: {
        unmodel(s, "intrinsic " + in.callee->getName().str());
        return ENDED;
      }
    case B_EXPECT: ret(a[0].e); return NEXT;
    case B_OBJSIZE: ret(mkConst(isC(a[1].e, 1) ? 0 : ~0ULL, widthOf(cb->getType()))); return NEXT;
    case B_MINMAX: {
        E x = a[0].e, y = a[1].e;
        switch (in.callee->getIntrinsicID()) {
          case Intrinsic::umin: ret(mkIte(mkUlt(x, y), x, y)); break;
          case Intrinsic::umax: ret(mkIte(mkUlt(x, y), y, x)); break;
          case Intrinsic::smin: ret(mkIte(mkSlt(x, y), x, y)); break;
          default: ret(mkIte(mkSlt(x, y), y, x)); break;
        }
        return NEXT;
      }
    case B_ABS: {E x = a[0].e; ret(iteKnown(s, mkSlt(x, mkConst(0, x->w)), mkSub(mkConst(0, x->w), x), x)); return NEXT;}
    case B_BSWAP: {
        E x = a[0].e; E r = mkExtract(x, 0, 8);
        for (unsigned i = 8; i < x->w; i += 8) {r = mkConcat(r, mkExtract(x, i, 8));}
        ret(r); return NEXT;
      }
    case B_CTPOP: case B_CTZ: {
        uint64_t v; E x = a[0].e; concretize(s, x, v);
        unsigned w = x->w; uint64_t r;
        if (in.builtin == B_CTPOP) {r = (uint64_t)__builtin_popcountll(v);}
        else if (in.callee->getIntrinsicID() == Intrinsic::cttz) {r = v ? (uint64_t)__builtin_ctzll(v) : w;}
        else {r = v ? (uint64_t)__builtin_clzll(v) - (64 - w) : w;}
        ret(mkConst(r, w)); return NEXT;
      }
    case B_FSH: {
        uint64_t k; concretize(s, a[2].e, k);
        unsigned w = a[0].e->w; k %= w;
        bool l = in.callee->getIntrinsicID() == Intrinsic::fshl;
        if (k == 0) {ret(l ? a[0].e : a[1].e); return NEXT;}
        unsigned sh = l ? (unsigned)k : w - (unsigned)k;
        ret(mkConcat(mkExtract(a[0].e, 0, w - sh), mkExtract(a[1].e, w - sh, sh))); return NEXT;
      }
    case B_SOVF: {
        E x = a[0].e, y = a[1].e, r, o; unsigned w = x->w;
        E z = mkConst(0, w);
        switch (in.callee->getIntrinsicID()) {
          case Intrinsic::sadd_with_overflow: {
              r = mkAdd(x, y);
              E sxx = mkSlt(x, z), sy = mkSlt(y, z), sr = mkSlt(r, z);
              o = mkAnd(mkEq(sxx, sy), mkNe(sr, sxx)); break;
            }
          case Intrinsic::ssub_with_overflow: {
              r = mkSub(x, y);
              E sxx = mkSlt(x, z), sy = mkSlt(y, z), sr = mkSlt(r, z);
              o = mkAnd(mkNe(sxx, sy), mkNe(sr, sxx)); break;
            }
          case Intrinsic::uadd_with_overflow: r = mkAdd(x, y); o = mkUlt(r, x); break;
          case Intrinsic::usub_with_overflow: r = mkSub(x, y); o = mkUlt(x, y); break;
          case Intrinsic::umul_with_overflow: {
              r = mkMul(x, y);
              if (isC(x)) {std::swap(x, y);}
              if (isC(y)) {o = y->val == 0 ? mkFalse() : mkUlt(mkConst(maskw(w) / y->val, w), x);} else {
                o = mkAnd(mkNe(y, z), mkNe(mkBin(UDIV, r, mkIte(mkEq(y, z), mkConst(1, w), y)), x));
              }
              break;
            }
          default: {
              r = mkMul(x, y);
              if (isC(x)) {std::swap(x, y);}
              if (isC(y)) {
                int64_t k = sx(y->val, w);
                int64_t mx = (int64_t)(maskw(w) >> 1), mn = -mx - 1;
                if (k == 0) {o = mkFalse();} else if (k == -1) {o = mkEq(x, mkConst((uint64_t)mn, w));} else {
                  int64_t hi = k > 0 ? mx / k : mn / k, lo = k > 0 ? mn / k : mx / k;
                  o = mkOr(mkSlt(x, mkConst((uint64_t)lo, w)), mkSlt(mkConst((uint64_t)hi, w), x));
                }
              } else if (w <= 32) {
                E big = mkMul(mkSext(x, 64), mkSext(y, 64));
                o = mkNe(mkSext(r, 64), big);
              } else {
                E y1 = mkIte(mkEq(y, z), mkConst(1, w), y);
                o = mkAnd(mkNe(y, z), mkOr(mkNe(mkBin(SDIV, r, y1), x), mkAnd(mkEq(y, mkConst(~0ULL, w)), mkEq(x, mkConst(1ULL << (w - 1), w)))));
              }
              break;
            }
        }
        Val v; v.agg = std::make_shared<std::vector<Val>>(2);
        (*v.agg)[0].e = r; (*v.agg)[1].e = o;
        f.r[in.dst] = v;
        return NEXT;
      }
    case B_VASTART: {
        uint64_t p; concretize(s, a[0].e, p);
        ObjP o = newObj(s, 8 * f.va.size(), VARARGS, "variadic arguments", false);
        for (size_t i = 0; i < f.va.size(); ++i) {
          E e = f.va[i].e;
          putBytes(*o, 8 * i, e->w == 64 ? e : mkZext(e, 64), 8);
        }
        f.allocas.push_back(o->base);
        uint64_t ob = o->base; o.reset();
        if (!storeScalar(s, mkConst(p, 64), mkConst(48, 32))) {return ENDED;}
        if (!storeScalar(s, mkConst(p + 4, 64), mkConst(304, 32))) {return ENDED;}
        if (!storeScalar(s, mkConst(p + 8, 64), mkConst(ob, 64))) {return ENDED;}
        if (!storeScalar(s, mkConst(p + 16, 64), mkConst(0, 64))) {return ENDED;}
        return NEXT;
      }
    case B_VACOPY: return doCopy(s, a[0].e, a[1].e, mkConst(24, 64), true);
    case B_TLSADDR: {
        auto * g = cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
        Thread & t = s.th[s.cur];
        auto it = t.tls.find(g);
        if (it == t.tls.end()) {
          ObjP o = newObj(s, DL->getTypeAllocSize(g->getValueType()), TLS, "thread-local " + g->getName().str(), true);
          if (g->hasInitializer()) {writeConst(o->b, 0, g->getValueType(), constVal(g->getInitializer()));}
          t.tls[g] = o->base;
          it = t.tls.find(g);
        }
        ret(mkConst(it->second, 64));
        return NEXT;
      }
    case B_SPAWN: {
        uint64_t fp; concretize(s, a[0].e, fp);
        Thread t;
        State * sp = &s;
        auto fit = faddr.find(fp);
        if (fit == faddr.end()) {unmodel(s, "vp_spawn target"); return ENDED;}
        pushCall(*sp, t, fit->second, {a[1]}, -1);
        int dst = in.dst;
        f.pc++;                       // before s.th may reallocate
        s.th.push_back(std::move(t));
        Frame & nf = s.th[s.cur].st.back();
        if (dst >= 0) {nf.r[dst].e = mkConst(s.th.size() - 1, widthOf(cb->getType()));}
        return JUMPED;
      }
    case B_JOIN: return NEXT;    // handled by the scheduler
    case B_YIELD: return NEXT;
    case B_TID: ret(mkConst((uint64_t)s.cur, widthOf(cb->getType()))); return NEXT;
    case B_PRINT: {
        std::string m; cstr(s, a[0].e, m);
        if (verbose) {fprintf(stderr, "PRINT %s %s (=%lld)\n", m.c_str(), show(a[1].e).c_str(), (long long)evalM(s, a[1].e));}
        return NEXT;
      }
    case B_READONLY: {
        uint64_t p, v; concretize(s, a[0].e, p); concretize(s, a[1].e, v);
        ObjP o = find(s, p);
        if (o) {writable(s, o).ro = v != 0;}
        return NEXT;
      }
    case B_KILL: gKilled++; return ENDED;
    default: break;
  }
  unmodel(s, "builtin " + in.callee->getName().str());
  return ENDED;
}

static Op binOp(unsigned op)
{
  switch (op) {
    case Instruction::Add: return ADD;
    case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV;
    case Instruction::SDiv: return SDIV;
    case Instruction::URem: return UREM;
    case Instruction::SRem: return SREM;
    case Instruction::And: return AND;
    case Instruction::Or: return OR;
    case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL;
    case Instruction::LShr: return LSHR;
    default: return ASHR;
  }
}
static E icmp(CmpInst::Predicate p, E x, E y)
{
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNe(x, y);
    case CmpInst::ICMP_ULT: return mkUlt(x, y);
    case CmpInst::ICMP_ULE: return mkUle(x, y);
    case CmpInst::ICMP_UGT: return mkUlt(y, x);
    case CmpInst::ICMP_UGE: return mkUle(y, x);
    case CmpInst::ICMP_SLT: return mkSlt(x, y);
    case CmpInst::ICMP_SLE: return mkSle(x, y);
    case CmpInst::ICMP_SGT: return mkSlt(y, x);
    default: return mkSle(y, x);
  }
}
static Res doBranch(State & s, Frame & f, E c, const BasicBlock * t, const BasicBlock * e)
{
  if (isC(c)) {jump(s, f, c->val ? t : e); return JUMPED;}
  std::shared_ptr<Model> mt, mf;
  int ft = feasible(s, c, mt), ff = feasible(s, mkNot(c), mf);
  if (ft == 1 && ff == 1) {
    State * n = forkState(s);
    addC(*n, mkNot(c)); setModel(*n, mf);
    jump(*n, n->th[n->cur].st.back(), e);
    addC(s, c); setModel(s, mt);
    jump(s, f, t);
    return JUMPED;
  }
  if (ft == 1) {addC(s, c); setModel(s, mt); jump(s, f, t); return JUMPED;}
  if (ff == 1) {addC(s, mkNot(c)); setModel(s, mf); jump(s, f, e); return JUMPED;}
  return ENDED;
}
static Res step(State & s)
{
  Thread & t = s.th[s.cur];
  Frame & f = t.st.back();
  Ins & in = f.f->code[f.pc];
  Instruction & I = *in.I;
  auto V = [&](unsigned i) {return opd(s, f, in.ops[i]);};
  auto set = [&](E e) {f.r[in.dst].e = e; f.r[in.dst].agg.reset();};
  switch (I.getOpcode()) {
    case Instruction::Alloca: {
        auto & al = cast<AllocaInst>(I);
        uint64_t n = 1; concretize(s, V(0).e, n);
        uint64_t sz = n * DL->getTypeAllocSize(al.getAllocatedType());
        ObjP o = newObj(s, sz, STACK, "local variable '" + (I.hasName() ? I.getName().str() : std::string("?")) + "' of " + f.f->F->getName().str(), false);
        f.allocas.push_back(o->base);
        set(mkConst(o->base, 64));
        return NEXT;
      }
    case Instruction::Load: {Val v; if (!loadVal(s, V(0).e, I.getType(), v)) {return ENDED;} f.r[in.dst] = v; return NEXT;}
    case Instruction::Store: {
        Val v = V(0);
        return storeVal(s, V(1).e, I.getOperand(0)->getType(), v) ? NEXT : ENDED;
      }
    case Instruction::GetElementPtr: {
        E p = V(0).e;
        uint64_t k = 0; unsigned i = 1;
        E sumE = nullptr;
        for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi, ++i) {
          if (StructType * st = gi.getStructTypeOrNull()) {
            k += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue());
          } else {
            E ix = V(i).e;
            if (ix->w < 64) {ix = mkSext(ix, 64);}
            E sc = mkMul(ix, mkConst(DL->getTypeAllocSize(gi.getIndexedType()), 64));
            if (isC(sc)) {k += sc->val;} else {sumE = sumE ? mkAdd(sumE, sc) : sc;}
          }
        }
        E r = mkAdd(p, mkConst(k, 64));
        if (sumE) {r = mkAdd(r, sumE);}
        set(r);
        return NEXT;
      }
    case Instruction::Br: {
        auto & b = cast<BranchInst>(I);
        if (b.isUnconditional()) {jump(s, f, b.getSuccessor(0)); return JUMPED;}
        return doBranch(s, f, V(0).e, b.getSuccessor(0), b.getSuccessor(1));
      }
    case Instruction::Switch: {
        auto & sw = cast<SwitchInst>(I);
        E c = V(0).e;
        if (isC(c)) {
          const BasicBlock * to = sw.getDefaultDest();
          for (auto & cs : sw.cases()) {if (cs.getCaseValue()->getZExtValue() == c->val) {to = cs.getCaseSuccessor();}}
          jump(s, f, to);
          return JUMPED;
        }
        // one case at a time
        for (auto & cs : sw.cases()) {
          E eq = mkEq(c, mkConst(cs.getCaseValue()->getZExtValue(), c->w));
          std::shared_ptr<Model> mt, mf;
          int ft = feasible(s, eq, mt), ff = feasible(s, mkNot(eq), mf);
          if (ft == 1 && ff == 1) {
            State * n = forkState(s);
            addC(*n, mkNot(eq)); setModel(*n, mf);
            addC(s, eq); setModel(s, mt);
            jump(s, f, cs.getCaseSuccessor());
            return JUMPED;
          }
          if (ft == 1) {addC(s, eq); setModel(s, mt); jump(s, f, cs.getCaseSuccessor()); return JUMPED;}
        }
        jump(s, f, sw.getDefaultDest());
        return JUMPED;
      }
    case Instruction::Ret: {
        Val v;
        if (I.getNumOperands()) {v = V(0);}
        for (uint64_t a : f.allocas) {s.mem.erase(a);}
        int rr = f.retReg;
        t.st.pop_back();
        if (t.st.empty()) {t.done = true; return JUMPED;}
        if (rr >= 0) {t.st.back().r[rr] = v;}
        return JUMPED;
      }
    case Instruction::Unreachable: report(s, "undefined", "unreachable code reached", *s.model); return ENDED;
    case Instruction::Select: {
        E c = V(0).e; Val x = V(1), y = V(2);
        if (x.agg) {
          uint64_t v; concretize(s, c, v); f.r[in.dst] = v ? x : y; return NEXT;
        }
        // keep pointers concrete so that memory accesses stay exact
        if (I.getType()->isPointerTy() && !isC(c) && x.e != y.e) {uint64_t v; concretize(s, c, v); set(v ? x.e : y.e); return NEXT;}
        set(iteKnown(s, c, x.e, y.e)); return NEXT;
      }
    case Instruction::ICmp: set(icmp(cast<ICmpInst>(I).getPredicate(), V(0).e, V(1).e)); return NEXT;
    case Instruction::Add: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Sub: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      {
        E x = V(0).e, y = V(1).e;
        if (I.getType()->getIntegerBitWidth() > 64) {unmodel(s, "wide arithmetic"); return ENDED;}
        set(I.getOpcode() == Instruction::Sub ? mkSub(x, y) : mkBin(binOp(I.getOpcode()), x, y)); return NEXT;
      }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E x = V(0).e, y = V(1).e;
        if (!require(s, mkNe(y, mkConst(0, y->w)), "undefined", "division by zero")) {return ENDED;}
        set(mkBin(binOp(I.getOpcode()), x, y)); return NEXT;
      }
    case Instruction::Trunc: set(mkExtract(V(0).e, 0, widthOf(I.getType()))); return NEXT;
    case Instruction::ZExt: set(mkZext(V(0).e, widthOf(I.getType()))); return NEXT;
    case Instruction::SExt: set(mkSext(V(0).e, widthOf(I.getType()))); return NEXT;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        E x = V(0).e; unsigned w = widthOf(I.getType());
        if (!x || !w) {unmodel(s, "cast"); return ENDED;}
        set(w < x->w ? mkExtract(x, 0, w) : mkZext(x, w)); return NEXT;
      }
    case Instruction::Freeze: f.r[in.dst] = V(0); return NEXT;
    case Instruction::ExtractValue: {
        Val v = V(0);
        for (unsigned i : cast<ExtractValueInst>(I).indices()) {Val n = (*v.agg)[i]; v = n;}
        f.r[in.dst] = v; return NEXT;
      }
    case Instruction::InsertValue: {
        Val v = V(0);
        if (!v.agg) {v = zeroVal(I.getType());}
        auto & iv = cast<InsertValueInst>(I);
        std::function<Val(Val, unsigned)> go = [&](Val b, unsigned d) -> Val {
            if (d == iv.getNumIndices()) {return V(1);}
            Val n; n.agg = std::make_shared<std::vector<Val>>(*b.agg);
            (*n.agg)[iv.getIndices()[d]] = go((*b.agg)[iv.getIndices()[d]], d + 1);
            return n;
          };
        f.r[in.dst] = go(v, 0); return NEXT;
      }
    case Instruction::Fence: return NEXT;
    case Instruction::AtomicRMW: {
        auto & rm = cast<AtomicRMWInst>(I);
        E p = V(0).e, v = V(1).e, old;
        if (!loadScalar(s, p, v->w, old)) {return ENDED;}
        E nv;
        switch (rm.getOperation()) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = mkAdd(old, v); break;
          case AtomicRMWInst::Sub: nv = mkSub(old, v); break;
          case AtomicRMWInst::And: nv = mkAnd(old, v); break;
          case AtomicRMWInst::Or: nv = mkOr(old, v); break;
          case AtomicRMWInst::Xor: nv = mkXor(old, v); break;
          case AtomicRMWInst::Nand: nv = mkNot(mkAnd(old, v)); break;
          case AtomicRMWInst::Max: nv = mkIte(mkSlt(old, v), v, old); break;
          case AtomicRMWInst::Min: nv = mkIte(mkSlt(v, old), v, old); break;
          case AtomicRMWInst::UMax: nv = mkIte(mkUlt(old, v), v, old); break;
          case AtomicRMWInst::UMin: nv = mkIte(mkUlt(v, old), v, old); break;
          default: unmodel(s, "atomicrmw"); return ENDED;
        }
        if (!storeScalar(s, p, nv)) {return ENDED;}
        set(old); return NEXT;
      }
    case Instruction::AtomicCmpXchg: {
        E p = V(0).e, cmp = V(1).e, nv = V(2).e, old;
        if (!loadScalar(s, p, cmp->w, old)) {return ENDED;}
        E ok = mkEq(old, cmp);
        if (!storeScalar(s, p, mkIte(ok, nv, old))) {return ENDED;}
        Val v; v.agg = std::make_shared<std::vector<Val>>(2);
        (*v.agg)[0].e = old; (*v.agg)[1].e = ok;
        f.r[in.dst] = v; return NEXT;
      }
    // floating point: concrete values only (symbolic operands are split over their feasible values)
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        uint64_t x, y; concretize(s, V(0).e, x); concretize(s, V(1).e, y);
        double a, b; fbits(I.getType(), x, a); fbits(I.getType(), y, b);
        double r = I.getOpcode() == Instruction::FAdd ? a + b : I.getOpcode() == Instruction::FSub ? a - b : I.getOpcode() == Instruction::FMul ? a * b : a / b;
        set(mkConst(rawOf(I.getType(), r), widthOf(I.getType()))); return NEXT;
      }
    case Instruction::FNeg: {uint64_t x; concretize(s, V(0).e, x); double a; fbits(I.getType(), x, a); set(mkConst(rawOf(I.getType(), -a), widthOf(I.getType()))); return NEXT;}
    case Instruction::FCmp: {
        uint64_t x, y; concretize(s, V(0).e, x); concretize(s, V(1).e, y);
        Type * ty = I.getOperand(0)->getType();
        double a, b; fbits(ty, x, a); fbits(ty, y, b);
        bool un = a != a || b != b, r = false;
        switch (cast<FCmpInst>(I).getPredicate()) {
          case CmpInst::FCMP_OEQ: r = a == b; break;
          case CmpInst::FCMP_OGT: r = a > b; break;
          case CmpInst::FCMP_OGE: r = a >= b; break;
          case CmpInst::FCMP_OLT: r = a < b; break;
          case CmpInst::FCMP_OLE: r = a <= b; break;
          case CmpInst::FCMP_ONE: r = !un && a != b; break;
          case CmpInst::FCMP_ORD: r = !un; break;
          case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = un || a == b; break;
          case CmpInst::FCMP_UGT: r = un || a > b; break;
          case CmpInst::FCMP_UGE: r = un || a >= b; break;
          case CmpInst::FCMP_ULT: r = un || a < b; break;
          case CmpInst::FCMP_ULE: r = un || a <= b; break;
          case CmpInst::FCMP_UNE: r = un || a != b; break;
          default: break;
        }
        set(mkConst(r, 1)); return NEXT;
      }
    case Instruction::UIToFP: case Instruction::SIToFP: {
        E x = V(0).e; uint64_t v; concretize(s, x, v);
        double r = I.getOpcode() == Instruction::UIToFP ? (double)v : (double)sx(v, x->w);
        set(mkConst(rawOf(I.getType(), r), widthOf(I.getType()))); return NEXT;
      }
    case Instruction::FPToUI: case Instruction::FPToSI: {
        uint64_t v; concretize(s, V(0).e, v); double a; fbits(I.getOperand(0)->getType(), v, a);
        uint64_t r = I.getOpcode() == Instruction::FPToUI ? (uint64_t)a : (uint64_t)(int64_t)a;
        set(mkConst(r, widthOf(I.getType()))); return NEXT;
      }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        uint64_t v; concretize(s, V(0).e, v); double a; fbits(I.getOperand(0)->getType(), v, a);
        set(mkConst(rawOf(I.getType(), a), widthOf(I.getType()))); return NEXT;
      }
    case Instruction::Call: {
        auto & cb = cast<CallInst>(I);
        std::vector<Val> a;
        for (unsigned i = 0; i < cb.arg_size(); ++i) {
          if (isa<MetadataAsValue>(cb.getArgOperand(i))) {a.push_back(Val()); continue;}
          a.push_back(V(i));
        }
        Function * F = in.callee;
        if (F && in.builtin) {return callBuiltin(s, f, in, a);}
        if (!F) {
          if (cb.isInlineAsm()) {unmodel(s, "inline assembly"); return ENDED;}
          uint64_t p; concretize(s, V(cb.arg_size()).e, p);
          auto it = faddr.find(p);
          if (it == faddr.end()) {
            report(s, "memory", p == 0 ? "call through a null function pointer" : "call through an invalid function pointer", *s.model);
            return ENDED;
          }
          F = it->second;
          if (int b = builtinOf(F)) {Ins tmp = in; tmp.callee = F; tmp.builtin = b; return callBuiltin(s, f, tmp, a);}
        }
        if (F->isDeclaration()) {unmodel(s, "external function " + F->getName().str()); return ENDED;}
        f.pc++;
        if (t.st.size() > 2000) {report(s, "recursion", "unbounded recursion", *s.model); return ENDED;}
        pushCall(s, t, F, a, in.dst);
        return JUMPED;
      }
    default: break;
  }
  unmodel(s, std::string("instruction ") + I.getOpcodeName());
  return ENDED;
}
static bool runnable(const State & s, int i)
{
  const Thread & t = s.th[i];
  if (t.done) {return false;}
  const Frame & f = t.st.back();
  const Ins & in = f.f->code[f.pc];
  if (in.builtin == B_JOIN) {
    for (size_t k = 0; k < s.th.size(); ++k) {if ((int)k != i && !s.th[k].done) {return false;}}
  }
  return true;
}
static void sampleDone(State & s)
{
  // keep a spread of completed paths for native validation
  uint64_t k = gPaths;
  if (samples.size() < maxSamples) {samples.push_back(inputsOf(s, *s.model)); sampleSched.push_back(s.sched);}
  else {
    uint64_t h = k * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
    if (h % (k + 1) < maxSamples) {samples[h % maxSamples] = inputsOf(s, *s.model); sampleSched[h % maxSamples] = s.sched;}
  }
}
static void runState(std::unique_ptr<State> sp)
{
  State & s = *sp;
  for (;;) {
    if (stopAll) {return;}
    if ((gSteps & 1023) == 0 && nowS() - tStart > timeLimit) {work.push_back(std::move(sp)); stopAll = true; return;}
    if (s.th.size() > 1) {
      bool curOk = runnable(s, s.cur);
      Thread & t = s.th[s.cur];
      bool sync = false;
      if (curOk) {const Ins & in = t.st.back().f->code[t.st.back().pc]; sync = in.sync || in.builtin == B_YIELD;}
      if (!curOk || (sync && !s.syncDone)) {
        std::vector<int> cand;
        for (size_t i = 0; i < s.th.size(); ++i) {if ((int)i != s.cur && runnable(s, (int)i)) {cand.push_back((int)i);}}
        if (!curOk) {
          if (cand.empty()) {
            bool all = true;
            for (auto & x : s.th) {all = all && x.done;}
            if (all) {break;}
            report(s, "deadlock", "no thread can make progress", *s.model); return;
          }
          for (size_t i = 1; i < cand.size(); ++i) {State * n = forkState(s); n->cur = cand[i]; n->syncDone = false;}
          s.cur = cand[0]; s.syncDone = false;
          continue;
        }
        if (s.preempt < maxPreempt) {
          for (int c : cand) {State * n = forkState(s); n->cur = c; n->syncDone = true; n->preempt++;
            // the chosen thread runs up to and including its next synchronising access
          }
        }
        s.syncDone = true;
      }
    } else if (s.th[0].done) {break;}
    Thread & t = s.th[s.cur];
    Frame & f = t.st.back();
    bool isSync = f.f->code[f.pc].sync || f.f->code[f.pc].builtin == B_YIELD;
    int cur = s.cur; bool multi = s.th.size() > 1;
    ++gSteps;
    if (++s.steps > maxSteps) {report(s, "nontermination", "no termination within the step budget", *s.model); return;}
    size_t depth = t.st.size(); int pc = f.pc;
    (void)depth; (void)pc;
    Res r = step(s);
    if (r == ENDED) {return;}
    if (r == NEXT) {s.th[cur].st.back().pc++;}
    if (isSync && multi) {s.sched.push_back((uint8_t)cur); s.syncDone = false;}
  }
  gPaths++;
  sampleDone(s);
}

static void instrumentSync()
{
  for (auto & F : *M) {
    if (F.isDeclaration()) {continue;}
    bool harness = F.getName().starts_with("vp_") || F.getName().starts_with("main");
    if (auto * sp = F.getSubprogram()) {
      std::string file = sp->getFilename().str();
      harness = harness || file.find("/harness/") != std::string::npos || file.find("/lib/vp_") != std::string::npos;
    }
    for (auto & bb : F) {
      for (auto & I : bb) {
        bool sync = false;
        if (I.isAtomic()) {sync = !isa<FenceInst>(I);}
        const Value * p = nullptr;
        if (auto * l = dyn_cast<LoadInst>(&I)) {p = l->getPointerOperand();}
        if (auto * st = dyn_cast<StoreInst>(&I)) {p = st->getPointerOperand();}
        if (p) {
          auto * g = dyn_cast<GlobalVariable>(getUnderlyingObject(p));
          if (g && !g->isConstant() && !g->isThreadLocal()) {sync = true;}
        }
        if (auto * mi = dyn_cast<MemIntrinsic>(&I)) {
          const Value * ps[2] = {mi->getRawDest(), nullptr};
          if (auto * mt = dyn_cast<MemTransferInst>(mi)) {ps[1] = mt->getRawSource();}
          for (auto * q : ps) {
            auto * g = q ? dyn_cast<GlobalVariable>(getUnderlyingObject(q)) : nullptr;
            if (g && !g->isConstant() && !g->isThreadLocal()) {sync = true;}
          }
        }
        if (sync && !harness) {I.setMetadata("vp.sync", MDNode::get(LC, {}));}
      }
    }
  }
}
static void jsonList(FILE * f, const std::vector<uint64_t> & v)
{
  fprintf(f, "[");
  for (size_t i = 0; i < v.size(); ++i) {fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v[i]);}
  fprintf(f, "]");
}
struct Args {int argc; char ** argv;};
static int realMain(int argc, char ** argv)
{
  std::vector<std::string> files;
  std::string out = "-", entry = "vp_main", instr;
  unsigned qto = 20000; bool opt = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() {return std::string(argv[++i]);};
    if (a == "--out") {out = nx();} else if (a == "--entry") {entry = nx();} else if (a == "--time") {timeLimit = atof(nx().c_str());}
    else if (a == "--steps") {maxSteps = strtoull(nx().c_str(), nullptr, 10);}
    else if (a == "--query-ms") {qto = (unsigned)atoi(nx().c_str());}
    else if (a == "--preempt") {maxPreempt = (unsigned)atoi(nx().c_str());}
    else if (a == "--errors") {maxErrors = (unsigned)atoi(nx().c_str());}
    else if (a == "--samples") {maxSamples = (unsigned)atoi(nx().c_str());}
    else if (a == "--param") {std::string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0);}
    else if (a == "--parts") {nParts = (unsigned)atoi(nx().c_str());}
    else if (a == "-v") {verbose = true;} else if (a == "--no-opt") {opt = false;}
    else if (a == "--instrument") {instr = nx();}
    else {files.push_back(a);}
  }
  tStart = nowS();
  SMDiagnostic err;
  for (auto & f : files) {
    auto m = parseIRFile(f, err, LC);
    if (!m) {err.print("vpx", errs()); return 70;}
    if (!M) {M = std::move(m);} else if (Linker::linkModules(*M, std::move(m))) {errs() << "link error\n"; return 70;}
  }
  DL = &M->getDataLayout();
  if (opt) {
    PassBuilder pb;
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    FunctionPassManager fpm;
    fpm.addPass(PromotePass());
    fpm.addPass(SimplifyCFGPass());
    for (auto & F : *M) {if (!F.isDeclaration()) {fpm.run(F, fam);}}
  }
  instrumentSync();
  if (!instr.empty()) {
    FunctionCallee vs = M->getOrInsertFunction("vp_native_sync", FunctionType::get(Type::getVoidTy(LC), false));
    std::vector<Instruction *> is;
    for (auto & F : *M) {for (auto & bb : F) {for (auto & I : bb) {if (I.hasMetadata("vp.sync")) {is.push_back(&I);}}}}
    for (auto * I : is) {
      CallInst * c = CallInst::Create(vs, {}, "", I);
      if (DISubprogram * sp = I->getFunction()->getSubprogram()) {
        c->setDebugLoc(DILocation::get(LC, 0, 0, sp));
      }
    }
    std::error_code ec;
    raw_fd_ostream os(instr, ec, sys::fs::OF_None);
    WriteBitcodeToFile(*M, os);
    return 0;
  }
  solver = new Solver(qto);
  // addresses
  auto st = std::make_unique<State>();
  st->model = std::make_shared<Model>();
  uint64_t fa = 0x20000000ULL;
  for (auto & F : *M) {gaddr[&F] = fa; faddr[fa] = &F; fa += 4096;}
  for (auto & G : M->globals()) {
    if (G.isThreadLocal()) {continue;}
    ObjP o = newObj(*st, DL->getTypeAllocSize(G.getValueType()), G.isConstant() ? CONSTG : GLOBAL,
        G.hasPrivateLinkage() ? std::string("string literal or constant") : "global '" + G.getName().str() + "'", true);
    gaddr[&G] = o->base;
  }
  for (auto & G : M->globals()) {
    if (G.isThreadLocal() || !G.hasInitializer()) {continue;}
    ObjP o = st->mem[gaddr[&G]];
    writeConst(o->b, 0, G.getValueType(), constVal(G.getInitializer()));
    if (G.isConstant()) {o->ro = true;}
  }
  Function * E0 = M->getFunction(entry);
  if (!E0) {errs() << "no entry " << entry << "\n"; return 70;}
  st->th.resize(1);
  pushCall(*st, st->th[0], E0, {}, -1);
  work.push_back(std::move(st));
  // --parts N: states are expanded oldest first until there are enough of them, then N processes share
  // what is pending (each takes the next state and all its descendants).
  if (nParts > 1) {
    while (!work.empty() && !stopAll && work.size() < 12 * nParts && nowS() - tStart < 20) {
      auto s = std::move(work.front());
      work.erase(work.begin());
      runState(std::move(s));
    }
    if (!work.empty() && !stopAll) {
      auto * next = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      next->store(0);
      std::vector<std::unique_ptr<State>> seeds;
      seeds.swap(work); finishedAlone = false;
      bool child = false;
      std::vector<pid_t> kids;
      for (unsigned i = 1; i <= nParts && !child; ++i) {
        pid_t pid = fork();
        if (pid == 0) {
          child = true;
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          out += "." + std::to_string(i);
          gPaths = gKilled = gForks = gSteps = gAsserts = gChecks = gUnknown = 0;
          solver->st = decltype(solver->st)();
          samples.clear(); sampleSched.clear(); reports.clear();
        } else if (pid > 0) {kids.push_back(pid);}
      }
      if (child) {
        for (;;) {
          size_t k = next->fetch_add(1);
          if (k >= seeds.size()) {break;}
          if (stopAll) {work.push_back(std::move(seeds[k])); continue;}
          work.push_back(std::move(seeds[k]));
          while (!work.empty() && !stopAll) {
            auto s = std::move(work.back());
            work.pop_back();
            runState(std::move(s));
          }
        }
      } else {
        for (pid_t k : kids) {int ws; waitpid(k, &ws, 0);}
        if (kids.size() < nParts) {stopAll = true;}
      }
    }
  }
  while (!work.empty() && !stopAll) {
    auto s = std::move(work.back());
    work.pop_back();
    runState(std::move(s));
  }
  bool complete = work.empty() && !stopAll && gUnknown == 0 && unmodelled.empty();
  FILE * f = out == "-" ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"finished_alone\": %s, \"complete\": %s, \"pending\": %zu, \"paths\": %llu, \"assumed_away\": %llu, \"forks\": %llu, \"instructions\": %llu,\n",
    finishedAlone ? "true" : "false", complete ? "true" : "false", work.size(), (unsigned long long)gPaths, (unsigned long long)gKilled, (unsigned long long)gForks, (unsigned long long)gSteps);
  fprintf(f, " \"assertions\": %llu, \"safety_checks\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"confirmed\": %llu, \"refuted\": %llu, \"domain_queries\": %llu, \"model_hits\": %llu, \"implied\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f,\n",
    (unsigned long long)gAsserts, (unsigned long long)gChecks, (unsigned long long)solver->st.queries, (unsigned long long)solver->st.sat, (unsigned long long)solver->st.unsat,
    (unsigned long long)gUnknown, (unsigned long long)gConfirmed, (unsigned long long)gRefuted, (unsigned long long)solver->st.domain, (unsigned long long)solver->st.model_hits, (unsigned long long)solver->st.syntactic, solver->st.time, nowS() - tStart);
  fprintf(f, " \"functions\": [");
  bool first = true;
  for (auto & p : finfos) {
    if (!p.second || !p.second->entered) {continue;}
    std::string file;
    if (DISubprogram * sp = p.first->getSubprogram()) {file = sp->getFilename().str();}
    fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",", esc(p.first->getName().str()).c_str(), esc(file).c_str()); first = false;
  }
  fprintf(f, "],\n \"unmodelled\": [");
  first = true;
  for (auto & u : unmodelled) {fprintf(f, "%s\"%s\"", first ? "" : ",", esc(u).c_str()); first = false;}
  fprintf(f, "],\n \"covers\": {");
  first = true;
  for (auto & l : coverSeen) {
    fprintf(f, "%s\"%s\": ", first ? "" : ",", esc(l).c_str()); first = false;
    if (covers.count(l)) {jsonList(f, covers[l]);} else {fprintf(f, "null");}
  }
  fprintf(f, "},\n \"samples\": [");
  for (size_t i = 0; i < samples.size(); ++i) {
    fprintf(f, "%s{\"inputs\": ", i ? "," : ""); jsonList(f, samples[i]);
    fprintf(f, ", \"sched\": "); std::vector<uint64_t> sc(sampleSched[i].begin(), sampleSched[i].end()); jsonList(f, sc); fprintf(f, "}");
  }
  fprintf(f, "],\n \"reports\": [");
  first = true;
  for (auto & p : reports) {
    auto & r = p.second;
    fprintf(f, "%s{\"kind\": \"%s\", \"msg\": \"%s\", \"loc\": \"%s\", \"stack\": \"%s\", \"inputs\": ", first ? "" : ",\n  ",
      esc(r.kind).c_str(), esc(r.msg).c_str(), esc(r.loc).c_str(), esc(r.stack).c_str());
    jsonList(f, r.inputs);
    fprintf(f, ", \"sched\": "); std::vector<uint64_t> sc(r.sched.begin(), r.sched.end()); jsonList(f, sc);
    fprintf(f, "}"); first = false;
  }
  fprintf(f, "]}\n");
  fflush(f);
  _Exit(0);
}
static void * threadMain(void * p) {Args * a = (Args *)p; int r = realMain(a->argc, a->argv); fflush(stdout); fflush(stderr); _Exit(r); return nullptr;}
int main(int argc, char ** argv)
{
  Args a{argc, argv};
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ULL << 30);
  pthread_t th;
  if (pthread_create(&th, &at, threadMain, &a)) {perror("pthread_create"); return 70;}
  pthread_join(th, nullptr);
  return 0;
}
