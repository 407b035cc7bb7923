// tsa: path-sensitive, context-sensitive typestate dataflow over LLVM IR.
//
// The module under analysis is the *unoptimised* IR clang produces for a driver
// translation unit that includes the repository's sources.  For every entry
// function the analyser computes, by forward dataflow with transfer functions
// per IR instruction, the set of abstract states at each program point.  States
// are kept disjoint per path ("property simulation"), unknown inputs are opaque
// symbols, and branches whose condition the state does not determine are taken
// both ways.  Loop heads are closed by state subsumption.  Nothing is executed
// and no solver is involved.
//
// Output: for every entry the set of abstract paths, each with its outcome and
// its sequence of typestate events (locks, atomics, user calls, frees ...).
// The rules (engine/rules_*.py) are automata over those event sequences.
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

static const DataLayout *DL;
static Module *M;
static string repoRoot = "/repo/";
static uint64_t maxSteps = 400000;
static uint64_t maxPaths = 60000;
static int loopBound = 9, loopBoundFixed = 400;

// ---------------------------------------------------------------- values

struct Val {
  enum K : uint8_t { Undef, Int, Ptr, Fn, Sym, Agg } k = Undef;
  uint64_t a = 0; // Int value | object id | Function* | symbol id
  int64_t b = 0;  // pointer offset | symbol addend
  shared_ptr<vector<Val>> g;
  bool operator==(const Val &o) const {
    if (k != o.k)
      return false;
    if (k == Agg)
      return g == o.g || (g && o.g && *g == *o.g);
    return a == o.a && b == o.b;
  }
  bool operator<(const Val &o) const { return std::tie(k, a, b) < std::tie(o.k, o.a, o.b); }
};
static Val I(uint64_t v) { Val r; r.k = Val::Int; r.a = v; return r; }
static Val P(uint64_t obj, int64_t off) { Val r; r.k = Val::Ptr; r.a = obj; r.b = off; return r; }
static Val F(const Function *f) { Val r; r.k = Val::Fn; r.a = (uint64_t)f; return r; }
static Val S(uint64_t id, int64_t add = 0) { Val r; r.k = Val::Sym; r.a = id; r.b = add; return r; }
static Val AGG(vector<Val> v) { Val r; r.k = Val::Agg; r.g = std::make_shared<vector<Val>>(std::move(v)); return r; }
static const Val U;

static vector<string> symNames;
static uint64_t newSym(const string &n) { symNames.push_back(n); return symNames.size() - 1; }

static uint64_t maskTo(uint64_t v, unsigned bits) { return bits >= 64 ? v : (v & ((1ull << bits) - 1)); }
static int64_t sextTo(uint64_t v, unsigned bits) {
  if (bits >= 64)
    return (int64_t)v;
  uint64_t m = 1ull << (bits - 1);
  v = maskTo(v, bits);
  return (int64_t)((v ^ m) - m);
}

// ---------------------------------------------------------------- interning

static map<string, int> strIds;
static vector<string> strs;
static int intern(const string &s) {
  auto it = strIds.find(s);
  if (it != strIds.end())
    return it->second;
  int n = strs.size();
  strIds[s] = n;
  strs.push_back(s);
  return n;
}

static std::unordered_map<const Function *, string> demNames;
static const string &dem(const Function *f) {
  auto it = demNames.find(f);
  if (it != demNames.end())
    return it->second;
  return demNames[f] = demangle(f->getName().str());
}

static unsigned bitsOf(Type *t) {
  if (t->isPointerTy())
    return 64;
  if (t->isIntegerTy())
    return t->getIntegerBitWidth();
  if (t->isSized())
    return DL->getTypeStoreSize(t).getFixedValue() * 8;
  return 0;
}
static int64_t sizeOf(Type *t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

// ---------------------------------------------------------------- memory

enum ObjKind { OStack, OHeap, OGlobal, OExc };
struct Cell { int64_t size; Val v; };

// Happens-before bookkeeping: vector clocks per abstract thread, release clocks per location,
// last accesses per memory range.
enum { MAXT = 10 };
struct VC {
  uint32_t c[MAXT] = {};
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      c[i] = std::max(c[i], o.c[i]);
  }
};
struct Acc { int64_t size; int tid; uint32_t clk; bool write, atomic; int loc, fn; };
struct Obj {
  int id = 0;
  ObjKind kind = OStack;
  int64_t size = -1;
  uint64_t align = 0; // 0: not known
  bool dead = false, zero = false, shared = false, lazyInit = false;
  int watch = -1; // interned watch name
  int tid = 0;
  string name;    // global / type info name
  int allocLoc = -1, freeLoc = -1;
  map<int64_t, Cell> cells;
  std::multimap<int64_t, Acc> acc;
  map<int64_t, std::pair<int64_t, VC>> sync;
};

struct Fact {
  bool bound = false;
  Val val;
  int64_t lo = INT64_MIN, hi = INT64_MAX;
  std::set<Val> ne;
};

struct FnInfo {
  std::unordered_map<const Value *, int> reg;
  int n = 0;
  std::set<const BasicBlock *> visited;
};
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fnInfos;
static FnInfo &info(const Function *f) {
  auto &p = fnInfos[f];
  if (!p) {
    p = std::make_unique<FnInfo>();
    for (auto &a : f->args())
      p->reg[&a] = p->n++;
    for (auto &B : *f)
      for (auto &i : B)
        p->reg[&i] = p->n++;
  }
  return *p;
}

struct Frame {
  const Function *f = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::const_iterator it;
  shared_ptr<vector<Val>> regs;
  vector<int> allocas;
  bool boundary = false; // injected environment step: caller instruction is re-evaluated on return
  int caughtBase = 0;
  int act = -1;          // the environment action this boundary frame belongs to
  int tid = 1;
  struct Visit { string c; int nev, nfork; };
  map<const BasicBlock *, vector<Visit>> loops;
};

struct Ev {
  shared_ptr<Ev> prev;
  int kind, tid, loc, fn;
  vector<Val> args;
  vector<int> sargs; // interned strings
};

struct Action { const Function *f; Val arg; int flags; bool used; int name; VC vc; bool thread = false, ended = false; int tid = 0; };
struct Waiting { bool on = false; Val cv, mtx; bool notified = false; bool timed = false; };

struct Parked { vector<Frame> fr; vector<int> caught; int tid; };

struct State {
  vector<shared_ptr<Obj>> objs;
  vector<Parked> parked;
  vector<Frame> fr;
  map<uint64_t, Fact> facts;
  map<std::tuple<int, Val, Val>, bool> memo;
  map<std::pair<uint64_t, int64_t>, int> locks;
  map<std::pair<int, int>, int> tls; // (variable, thread) -> instance
  map<std::pair<uint64_t, int64_t>, int> relock; // recursive mutexes: further locks by the owner
  vector<Action> acts;
  map<int, Waiting> waits; // by thread
  vector<int> caught;
  int curExc = -1;
  bool oom = false, spurious = false, longWaits = false;
  int timeouts = 0; // timeouts reported since the client's last event
  int oomLeft = 0;
  int syncLeft = 0;   // environment steps that may still be injected at sync points
  int nthreads = 1;
  int nfork = 0;
  bool hb = false;
  VC vc[MAXT], pend[MAXT], relf[MAXT];
  std::set<std::pair<int, int>> raced;
  shared_ptr<Ev> ev;
  int nev = 0;
  uint64_t steps = 0;
  string out;
  bool done = false;
};

static uint64_t statSteps, statStates, statMaxDepth;
static std::set<const Function *> fnSeen;
static std::set<string> unknownExt;
static std::set<std::pair<const Function *, const Instruction *>> callSites;

static map<const GlobalVariable *, int> globalIds; // per entry (object ids are allocated up front)

struct PathOut { string out; shared_ptr<Ev> ev; vector<string> leaks; };

class Analyser {
public:
  vector<State> work;
  vector<PathOut> results;
  bool truncated = false;

  // ------------------------------------------------------------ objects
  Obj &wobj(State &s, uint64_t id) {
    auto &p = s.objs[id];
    if (p.use_count() > 1)
      p = std::make_shared<Obj>(*p);
    return *p;
  }
  const Obj &obj(State &s, uint64_t id) { return *s.objs[id]; }
  int newObj(State &s, ObjKind k, int64_t size) {
    auto o = std::make_shared<Obj>();
    o->id = s.objs.size();
    o->kind = k;
    o->size = size;
    o->tid = s.fr.empty() ? 1 : s.fr.back().tid;
    s.objs.push_back(o);
    return o->id;
  }

  map<const GlobalVariable *, int> gid;
  int globalObj(State &s, const GlobalVariable *g) {
    // Global objects have the same id in all states of an entry.
    auto it = gid.find(g);
    return it->second;
  }
  void initGlobals(State &s) {
    gid.clear();
    for (auto &g : M->globals()) {
      int id = newObj(s, OGlobal, g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
      s.objs[id]->name = g.getName().str();
      gid[&g] = id;
    }
    for (auto &g : M->globals()) {
      if (!g.hasInitializer())
        continue;
      Obj &o = *s.objs[gid[&g]];
      if (g.getInitializer()->isNullValue())
        o.zero = true;
      else
        flatten(s, g.getInitializer(), 0, o);
      if (!g.isConstant())
        o.zero = true;
    }
  }
  void flatten(State &s, const Constant *c, int64_t off, Obj &o) {
    Type *t = c->getType();
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        if (auto *e = c->getAggregateElement(i))
          flatten(s, e, off + sl->getElementOffset(i), o);
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      if (at->getNumElements() > 512)
        return;
      int64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); ++i)
        if (auto *e = c->getAggregateElement(i))
          flatten(s, e, off + i * es, o);
      return;
    }
    o.cells[off] = Cell{sizeOf(t), constant(s, c)};
  }

  // ------------------------------------------------------------ constants
  Val constant(State &s, const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c))
      return ci->getBitWidth() <= 64 ? I(ci->getZExtValue()) : U;
    if (isa<ConstantPointerNull>(c))
      return I(0);
    if (isa<UndefValue>(c)) {
      if (c->getType()->isAggregateType())
        return aggOf(s, c);
      return U;
    }
    if (auto *f = dyn_cast<Function>(c))
      return F(f);
    if (auto *g = dyn_cast<GlobalVariable>(c))
      return P(globalObj(s, g), 0);
    if (auto *ga = dyn_cast<GlobalAlias>(c))
      return constant(s, ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        auto *gp = cast<GEPOperator>(ce);
        if (gp->accumulateConstantOffset(*DL, off)) {
          Val b = constant(s, cast<Constant>(gp->getPointerOperand()));
          if (b.k == Val::Ptr)
            return P(b.a, b.b + off.getSExtValue());
          if (b.k == Val::Int)
            return I(b.a + off.getSExtValue());
        }
        return U;
      }
      if (ce->isCast())
        return constant(s, cast<Constant>(ce->getOperand(0)));
      if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
        Val x = constant(s, cast<Constant>(ce->getOperand(0)));
        Val y = constant(s, cast<Constant>(ce->getOperand(1)));
        return arith(s, ce->getOpcode(), x, y, bitsOf(ce->getType()));
      }
      return U;
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c))
      return aggOf(s, c);
    if (auto *fp = dyn_cast<ConstantFP>(c)) {
      APInt b = fp->getValueAPF().bitcastToAPInt();
      if (b.getBitWidth() <= 64)
        return I(b.getZExtValue());
    }
    return U;
  }
  Val aggOf(State &s, const Constant *c) {
    vector<Val> v;
    unsigned n = 0;
    if (auto *st = dyn_cast<StructType>(c->getType()))
      n = st->getNumElements();
    else if (auto *at = dyn_cast<ArrayType>(c->getType()))
      n = std::min<uint64_t>(at->getNumElements(), 256);
    for (unsigned i = 0; i < n; ++i) {
      auto *e = c->getAggregateElement(i);
      v.push_back(e ? constant(s, e) : U);
    }
    return AGG(std::move(v));
  }

  // ------------------------------------------------------------ registers
  Val get(State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v))
      return constant(s, c);
    Frame &f = s.fr.back();
    auto &inf = info(f.f);
    auto it = inf.reg.find(v);
    if (it == inf.reg.end())
      return U;
    return norm(s, (*f.regs)[it->second]);
  }
  void set(State &s, const Value *v, Val x) { setIn(s, s.fr.back(), v, std::move(x)); }
  void setIn(State &s, Frame &f, const Value *v, Val x) {
    if (f.regs.use_count() > 1)
      f.regs = std::make_shared<vector<Val>>(*f.regs);
    (*f.regs)[info(f.f).reg[v]] = std::move(x);
  }
  Val norm(State &s, const Val &v) {
    if (v.k != Val::Sym)
      return v;
    auto it = s.facts.find(v.a);
    if (it == s.facts.end() || !it->second.bound)
      return v;
    Val r = norm(s, it->second.val);
    if (v.b) {
      if (r.k == Val::Int) r.a += v.b;
      else if (r.k == Val::Ptr || r.k == Val::Sym) r.b += v.b;
    }
    return r;
  }

  // ------------------------------------------------------------ events
  int locOf(State &s, int &fn) {
    // innermost frame whose current instruction lies in the repository
    fn = -1;
    for (int i = (int)s.fr.size() - 1; i >= 0; --i) {
      Frame &f = s.fr[i];
      if (f.it == f.bb->end())
        continue;
      const Instruction &ins = *f.it;
      auto &dl = ins.getDebugLoc();
      if (!dl)
        continue;
      string file = fileOf(dl);
      if (file.compare(0, repoRoot.size(), repoRoot) == 0) {
        fn = intern(dem(f.f));
        return intern(file.substr(repoRoot.size()) + ":" + std::to_string(dl.getLine()));
      }
    }
    return -1;
  }
  string fileOf(const DebugLoc &dl) {
    auto *sc = dl->getScope();
    auto *df = sc->getFile();
    static std::unordered_map<const DIFile *, string> cache;
    auto it = cache.find(df);
    if (it != cache.end())
      return it->second;
    string n = df->getFilename().str();
    if (!n.empty() && n[0] != '/')
      n = df->getDirectory().str() + "/" + n;
    // normalise "a/../"
    SmallString<256> sm(n);
    size_t p;
    string r = n;
    while ((p = r.find("/../")) != string::npos && p > 0) {
      size_t q = r.rfind('/', p - 1);
      if (q == string::npos)
        break;
      r = r.substr(0, q) + r.substr(p + 3);
    }
    return cache[df] = r;
  }
  void emit(State &s, const char *kind, vector<Val> args = {}, vector<string> sargs = {}, bool obs = true) {
    auto e = std::make_shared<Ev>();
    e->prev = s.ev;
    e->kind = intern(kind);
    e->tid = s.fr.empty() ? 0 : s.fr.back().tid;
    e->loc = locOf(s, e->fn);
    e->args = std::move(args);
    for (auto &x : sargs)
      e->sargs.push_back(intern(x));
    s.ev = e;
    if (obs)
      s.nev++;
  }
  void finish(State &s, const string &out) {
    s.out = out;
    s.done = true;
  }

  // ------------------------------------------------------------ happens-before
  void hbOn(State &s) {
    if (!s.hb) {
      s.hb = true;
      s.vc[1].c[1] = 1;
    }
  }
  bool isParked(State &s, int tid) {
    for (auto &p : s.parked)
      if (p.tid == tid)
        return true;
    return false;
  }
  int hbTid(State &s) { return std::min(s.fr.empty() ? 1 : s.fr.back().tid, MAXT - 1); }
  bool ordered(State &s, const Acc &a, int t) { return a.tid == t || a.clk <= s.vc[t].c[a.tid]; }
  void race(State &s, const Val &p, const Acc &a, const char *what) {
    int fn, loc = locOf(s, fn);
    if (!s.raced.insert({a.loc, loc}).second)
      return;
    emit(s, "race", {p, I(a.tid)}, {what, a.write ? "write" : a.atomic ? "sync access" : "read", a.loc >= 0 ? strs[a.loc] : "client", a.fn >= 0 ? strs[a.fn] : ""});
  }
  void hbAccess(State &s, const Val &p, int64_t size, bool write, bool atomic, const char *what) {
    if (!s.hb || p.k != Val::Ptr || size <= 0)
      return;
    if (obj(s, p.a).kind == OExc)
      return;
    if (obj(s, p.a).kind == OGlobal)
      if (auto *g = M->getGlobalVariable(obj(s, p.a).name, true))
        if (g->isConstant())
          return;
    int t = hbTid(s);
    Obj &o = wobj(s, p.a);
    int64_t lo = p.b, hi = p.b + size;
    auto it = o.acc.lower_bound(lo - 512);
    vector<Acc> bad;
    while (it != o.acc.end() && it->first < hi) {
      Acc &a = it->second;
      if (it->first + a.size <= lo) {
        ++it;
        continue;
      }
      bool conflict = (write || a.write) && !(atomic && a.atomic);
      bool ord = ordered(s, a, t);
      if (conflict && !ord)
        bad.push_back(a);
      // superseded entries: same thread, covered, and not stronger
      if (it->first >= lo && it->first + a.size <= hi && ord && (write || !a.write) && (a.atomic == atomic || !atomic) && (write || a.tid == t)) {
        it = o.acc.erase(it);
        continue;
      }
      ++it;
    }
    int fn, loc = locOf(s, fn);
    o.acc.emplace(lo, Acc{size, t, s.vc[t].c[t], write, atomic, loc, fn});
    for (auto &a : bad)
      race(s, p, a, what);
  }
  void hbEnd(State &s, uint64_t id, const char *what) { // end of lifetime
    if (!s.hb || obj(s, id).acc.empty())
      return;
    int t = hbTid(s);
    vector<Acc> bad;
    for (auto &x : obj(s, id).acc)
      if (!ordered(s, x.second, t))
        bad.push_back(x.second);
    Obj &o = wobj(s, id);
    o.acc.clear();
    o.sync.clear();
    for (auto &a : bad)
      race(s, P(id, 0), a, what);
  }
  void hbAcquire(State &s, const Val &p, int64_t size, bool acq) {
    if (!s.hb)
      return;
    int t = hbTid(s);
    const Obj &o = obj(s, p.a);
    for (auto &x : o.sync)
      if (x.first < p.b + size && x.first + x.second.first > p.b) {
        s.pend[t].join(x.second.second);
        if (acq)
          s.vc[t].join(x.second.second);
      }
  }
  void hbRelease(State &s, const Val &p, int64_t size, bool rel, bool rmw) {
    if (!s.hb)
      return;
    int t = hbTid(s);
    Obj &o = wobj(s, p.a);
    auto &e = o.sync[p.b];
    e.first = std::max(e.first, size);
    if (!rmw)
      e.second = VC();
    e.second.join(rel ? s.vc[t] : s.relf[t]);
    s.vc[t].c[t]++;
  }
  static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
  static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }

  // ------------------------------------------------------------ load/store
  // Resolves an address; reports the defect and ends the path if it is not accessible.
  bool access(State &s, const Val &p, int64_t size, const char *what, uint64_t align = 1) {
    if (p.k == Val::Ptr) {
      const Obj &o = obj(s, p.a);
      if (o.dead) {
        emit(s, "err", {p}, {string("use-after-") + (o.kind == OHeap ? "free" : "scope"), what, o.name});
        finish(s, "err");
        return false;
      }
      if (o.size >= 0 && o.kind != OGlobal && (p.b < 0 || p.b + size > o.size)) {
        emit(s, "err", {p}, {"out-of-bounds", what, o.name});
        finish(s, "err");
        return false;
      }
      if (o.align && align > 1 && (align > o.align || (p.b & (int64_t)(align - 1)))) {
        emit(s, "err", {p}, {"misaligned", what, o.name});
        finish(s, "err");
        return false;
      }
      return true;
    }
    if (p.k == Val::Int) {
      emit(s, "err", {p}, {"null-deref", what});
      finish(s, "err");
      return false;
    }
    if (p.k == Val::Fn) {
      emit(s, "err", {p}, {"fn-deref", what});
      finish(s, "err");
      return false;
    }
    emit(s, "err", {p}, {p.k == Val::Undef ? "undef-deref" : "unknown-deref", what});
    finish(s, "err");
    return false;
  }

  Val loadScalar(State &s, const Val &p, int64_t size, bool isPtr) {
    const Obj &o = obj(s, p.a);
    auto it = o.cells.find(p.b);
    if (it != o.cells.end() && it->second.size == size)
      return norm(s, it->second.v);
    if (it != o.cells.end() && it->second.size > size) {
      Val v = norm(s, it->second.v);
      if (v.k == Val::Int)
        return I(maskTo(v.a, size * 8));
      if (v.k == Val::Sym)
        return v;
      return U;
    }
    // assemble from / extract out of overlapping integer cells
    bool any = false, all = true;
    uint64_t acc = 0;
    for (int64_t i = 0; i < size && size <= 8; ++i) {
      auto j = o.cells.upper_bound(p.b + i);
      bool found = false;
      if (j != o.cells.begin()) {
        --j;
        if (j->first + j->second.size > p.b + i) {
          found = any = true;
          Val v = norm(s, j->second.v);
          if (v.k == Val::Int)
            acc |= ((v.a >> (8 * (p.b + i - j->first))) & 0xff) << (8 * i);
          else
            all = false;
        }
      }
      if (!found && !o.zero)
        all = false;
    }
    if (all && size <= 8)
      return I(acc);
    if (any)
      return U;
    if (o.kind == OGlobal) {
      if (o.name == "__libc_single_threaded")
        return I(0);
      auto *g = M->getGlobalVariable(o.name, true);
      if (g && !g->hasInitializer())
        return S(newSym("@" + o.name));
    }
    return U;
  }
  void eraseRange(Obj &o, int64_t off, int64_t size) {
    auto j = o.cells.lower_bound(off);
    if (j != o.cells.begin()) {
      auto k = std::prev(j);
      if (k->first + k->second.size > off)
        o.cells.erase(k);
    }
    j = o.cells.lower_bound(off);
    while (j != o.cells.end() && j->first < off + size)
      j = o.cells.erase(j);
  }
  void storeScalar(State &s, const Val &p, int64_t size, const Val &v) {
    Obj &o = wobj(s, p.a);
    auto it = o.cells.find(p.b);
    if (it != o.cells.end() && it->second.size == size) {
      it->second.v = v;
      return;
    }
    // partial overwrite of a wider integer cell
    auto j = o.cells.upper_bound(p.b);
    if (j != o.cells.begin()) {
      --j;
      if (j->first <= p.b && j->first + j->second.size >= p.b + size && j->second.size > size) {
        Val w = norm(s, j->second.v);
        if (w.k == Val::Int && v.k == Val::Int && size < 8) {
          int sh = 8 * (p.b - j->first);
          uint64_t m = maskTo(~0ull, size * 8) << sh;
          j->second.v = I((w.a & ~m) | ((v.a << sh) & m));
          return;
        }
      }
    }
    eraseRange(o, p.b, size);
    o.cells[p.b] = Cell{size, v};
  }
  Val load(State &s, const Val &p, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      vector<Val> v;
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        v.push_back(load(s, P(p.a, p.b + sl->getElementOffset(i)), st->getElementType(i)));
      return AGG(std::move(v));
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      int64_t es = DL->getTypeAllocSize(at->getElementType());
      vector<Val> v;
      for (unsigned i = 0; i < at->getNumElements(); ++i)
        v.push_back(load(s, P(p.a, p.b + i * es), at->getElementType()));
      return AGG(std::move(v));
    }
    return loadScalar(s, p, sizeOf(t), t->isPointerTy());
  }
  void store(State &s, const Val &p, Type *t, const Val &v) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        store(s, P(p.a, p.b + sl->getElementOffset(i)), st->getElementType(i),
              v.k == Val::Agg && i < v.g->size() ? (*v.g)[i] : U);
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      int64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); ++i)
        store(s, P(p.a, p.b + i * es), at->getElementType(), v.k == Val::Agg && i < v.g->size() ? (*v.g)[i] : U);
      return;
    }
    storeScalar(s, p, sizeOf(t), v);
  }
  void copyMem(State &s, const Val &d, const Val &src, int64_t n) {
    const Obj so = obj(s, src.a); // copy: may alias
    Obj &o = wobj(s, d.a);
    eraseRange(o, d.b, n);
    for (auto &c : so.cells) {
      if (c.first >= src.b && c.first + c.second.size <= src.b + n)
        o.cells[c.first - src.b + d.b] = c.second;
      else if (c.second.v.k == Val::Int && c.first < src.b + n && c.first + c.second.size > src.b) {
        for (int64_t i = 0; i < c.second.size; ++i)
          if (c.first + i >= src.b && c.first + i < src.b + n)
            o.cells[c.first + i - src.b + d.b] = Cell{1, I((c.second.v.a >> (8 * i)) & 0xff)};
      }
    }
    if (so.zero && !o.zero)
      for (int64_t i = 0; i < n; ++i) {
        auto j = o.cells.upper_bound(d.b + i);
        bool cov = false;
        if (j != o.cells.begin()) {
          --j;
          cov = j->first + j->second.size > d.b + i;
        }
        if (!cov)
          o.cells[d.b + i] = Cell{1, I(0)};
      }
  }

  // ------------------------------------------------------------ arithmetic
  map<std::tuple<unsigned, Val, Val>, uint64_t> exprs;
  Val expr(unsigned op, const Val &x, const Val &y) {
    auto key = std::make_tuple(op, x, y);
    auto it = exprs.find(key);
    if (it == exprs.end())
      it = exprs.emplace(key, newSym("expr")).first;
    return S(it->second);
  }
  Val arith(State &s, unsigned op, Val x, Val y, unsigned bits) {
    using I_ = Instruction;
    if (x.k == Val::Int && y.k == Val::Int) {
      uint64_t a = maskTo(x.a, bits), b = maskTo(y.a, bits);
      int64_t sa = sextTo(a, bits), sb = sextTo(b, bits);
      switch (op) {
      case I_::Add: return I(maskTo(a + b, bits));
      case I_::Sub: return I(maskTo(a - b, bits));
      case I_::Mul: return I(maskTo(a * b, bits));
      case I_::UDiv: return b ? I(a / b) : U;
      case I_::SDiv: return b ? I(maskTo(sa / sb, bits)) : U;
      case I_::URem: return b ? I(a % b) : U;
      case I_::SRem: return b ? I(maskTo(sa % sb, bits)) : U;
      case I_::Shl: return I(b < 64 ? maskTo(a << b, bits) : 0);
      case I_::LShr: return I(b < 64 ? a >> b : 0);
      case I_::AShr: return I(maskTo((uint64_t)(sa >> std::min<uint64_t>(b, 63)), bits));
      case I_::And: return I(a & b);
      case I_::Or: return I(a | b);
      case I_::Xor: return I(a ^ b);
      }
      return U;
    }
    if (op == I_::Add || op == I_::Sub) {
      if (op == I_::Add && x.k == Val::Int)
        std::swap(x, y);
      if (y.k == Val::Int && (x.k == Val::Ptr || x.k == Val::Sym)) {
        int64_t d = sextTo(y.a, bits);
        x.b += op == I_::Add ? d : -d;
        return x;
      }
      if (op == I_::Sub && x.k == Val::Ptr && y.k == Val::Ptr && x.a == y.a)
        return I((uint64_t)(x.b - y.b));
      if (op == I_::Sub && x.k == Val::Sym && y.k == Val::Sym && x.a == y.a)
        return I((uint64_t)(x.b - y.b));
    }
    if (op == I_::And && y.k == Val::Int && (x.k == Val::Ptr || x.k == Val::Fn) && y.a < 2)
      return I(x.k == Val::Ptr ? (uint64_t)(x.b & y.a) : 0);
    if (op == I_::And && y.k == Val::Int && y.a == 0)
      return I(0);
    if (op == I_::And && x.k == Val::Sym && y.k == Val::Int && (y.a == maskTo(~0ull, bits) || (bits == 8 && y.a == 1)))
      return x;
    if ((op == I_::Or || op == I_::Xor) && y.k == Val::Int && y.a == 0)
      return x;
    if (x.k == Val::Undef || y.k == Val::Undef)
      return U;
    if (op == I_::Xor && bits == 1 && x.k == Val::Sym && y.k == Val::Int && y.a == 1)
      return expr(op, x, y);
    return expr(op, x, y);
  }

  // ------------------------------------------------------------ comparisons
  // -1 unknown, else 0/1.  eq only.
  int evalEq(State &s, const Val &x, const Val &y) {
    if (x.k == Val::Undef || y.k == Val::Undef)
      return -1;
    if (x.k == Val::Sym && y.k == Val::Sym && x.a == y.a)
      return x.b == y.b;
    if (x.k != Val::Sym && y.k != Val::Sym) {
      if (x.k != y.k)
        return 0; // object / function addresses never equal small integers or each other
      if (x.k == Val::Int)
        return x.a == y.a;
      return x.a == y.a && x.b == y.b;
    }
    const Val &sy = x.k == Val::Sym ? x : y;
    Val ot = x.k == Val::Sym ? y : x;
    auto it = s.facts.find(sy.a);
    if (ot.k == Val::Int) {
      ot.a -= sy.b;
      if (it != s.facts.end()) {
        if (it->second.ne.count(ot))
          return 0;
        int64_t v = (int64_t)ot.a;
        if (v < it->second.lo || v > it->second.hi)
          return 0;
        if (it->second.lo == it->second.hi)
          return it->second.lo == v;
      }
    } else if (ot.k == Val::Ptr) {
      ot.b -= sy.b;
      if (it != s.facts.end() && it->second.ne.count(ot))
        return 0;
    } else if (it != s.facts.end() && it->second.ne.count(ot))
      return 0;
    auto m = s.memo.find(std::make_tuple((int)CmpInst::ICMP_EQ, std::min(x, y), std::max(x, y)));
    if (m != s.memo.end())
      return m->second;
    return -1;
  }
  void assumeEq(State &s, const Val &x, const Val &y, bool eq) {
    if (x.k == Val::Undef || y.k == Val::Undef)
      return;
    const Val &sy = x.k == Val::Sym ? x : y;
    Val ot = x.k == Val::Sym ? y : x;
    if (sy.k != Val::Sym)
      return;
    if (ot.k == Val::Int) ot.a -= sy.b;
    else if (ot.k == Val::Ptr || ot.k == Val::Sym) ot.b -= sy.b;
    if (eq) {
      Fact &f = s.facts[sy.a];
      f.bound = true;
      f.val = ot;
    } else {
      if (ot.k == Val::Sym) {
        s.memo[std::make_tuple((int)CmpInst::ICMP_EQ, std::min(x, y), std::max(x, y))] = false;
      } else {
        Fact &f = s.facts[sy.a];
        f.ne.insert(ot);
        if (ot.k == Val::Int) {
          if ((int64_t)ot.a == f.lo) f.lo++;
          if ((int64_t)ot.a == f.hi) f.hi--;
        }
      }
    }
  }
  int evalCmp(State &s, CmpInst::Predicate p, const Val &x, const Val &y, unsigned bits) {
    if (p == CmpInst::ICMP_EQ)
      return evalEq(s, x, y);
    if (p == CmpInst::ICMP_NE) {
      int r = evalEq(s, x, y);
      return r < 0 ? r : !r;
    }
    if (x.k == Val::Int && y.k == Val::Int) {
      uint64_t a = maskTo(x.a, bits), b = maskTo(y.a, bits);
      int64_t sa = sextTo(a, bits), sb = sextTo(b, bits);
      switch (p) {
      case CmpInst::ICMP_UGT: return a > b;
      case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_ULT: return a < b;
      case CmpInst::ICMP_ULE: return a <= b;
      case CmpInst::ICMP_SGT: return sa > sb;
      case CmpInst::ICMP_SGE: return sa >= sb;
      case CmpInst::ICMP_SLT: return sa < sb;
      case CmpInst::ICMP_SLE: return sa <= sb;
      default: return -1;
      }
    }
    if (x.k == Val::Ptr && y.k == Val::Ptr && x.a == y.a)
      return evalCmp(s, p, I(x.b + (1ll << 40)), I(y.b + (1ll << 40)), 64);
    if (x.k == Val::Sym && y.k == Val::Sym && x.a == y.a)
      return evalCmp(s, CmpInst::isUnsigned(p) ? CmpInst::getSignedPredicate(p) : p, I((uint64_t)x.b), I((uint64_t)y.b), 64);
    if (x.k == Val::Undef || y.k == Val::Undef)
      return -1;
    if (x.k == Val::Int && y.k == Val::Sym)
      return evalCmp(s, CmpInst::getSwappedPredicate(p), y, x, bits);
    if (x.k == Val::Sym && y.k == Val::Int) {
      auto it = s.facts.find(x.a);
      if (it != s.facts.end()) {
        int64_t lo = it->second.lo, hi = it->second.hi;
        bool uns = CmpInst::isUnsigned(p);
        auto add = [](int64_t v, int64_t d) { return (v == INT64_MIN || v == INT64_MAX) ? v : v + d; };
        lo = add(lo, x.b);
        hi = add(hi, x.b);
        int64_t c = sextTo(y.a, bits);
        if (!uns || (lo >= 0 && c >= 0)) {
          switch (p) {
          case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: if (lo > c) return 1; if (hi <= c) return 0; break;
          case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: if (lo >= c) return 1; if (hi < c) return 0; break;
          case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: if (hi < c) return 1; if (lo >= c) return 0; break;
          case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: if (hi <= c) return 1; if (lo > c) return 0; break;
          default: break;
          }
        }
        if (uns && c == 0 && it->second.ne.count(I((uint64_t)-x.b))) {
          if (p == CmpInst::ICMP_UGT) return 1;
          if (p == CmpInst::ICMP_ULE) return 0;
        }
      }
      if (CmpInst::isUnsigned(p) && y.a == 0) {
        if (p == CmpInst::ICMP_UGE) return 1;
        if (p == CmpInst::ICMP_ULT) return 0;
      }
    }
    auto m = s.memo.find(std::make_tuple((int)p, x, y));
    if (m != s.memo.end())
      return m->second;
    m = s.memo.find(std::make_tuple((int)CmpInst::getInversePredicate(p), x, y));
    if (m != s.memo.end())
      return !m->second;
    m = s.memo.find(std::make_tuple((int)CmpInst::getSwappedPredicate(p), y, x));
    if (m != s.memo.end())
      return m->second;
    return -1;
  }
  void assumeCmp(State &s, CmpInst::Predicate p, Val x, Val y, unsigned bits, bool truth) {
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
      assumeEq(s, x, y, (p == CmpInst::ICMP_EQ) == truth);
      return;
    }
    if (x.k == Val::Undef || y.k == Val::Undef)
      return;
    s.memo[std::make_tuple((int)p, x, y)] = truth;
    if (!truth)
      p = CmpInst::getInversePredicate(p);
    if (x.k == Val::Int && y.k == Val::Sym) {
      std::swap(x, y);
      p = CmpInst::getSwappedPredicate(p);
    }
    if (x.k != Val::Sym || y.k != Val::Int)
      return;
    Fact &f = s.facts[x.a];
    int64_t c = sextTo(y.a, bits) - x.b;
    switch (p) {
    case CmpInst::ICMP_SGT: f.lo = std::max(f.lo, c + 1); break;
    case CmpInst::ICMP_SGE: f.lo = std::max(f.lo, c); break;
    case CmpInst::ICMP_SLT: f.hi = std::min(f.hi, c - 1); break;
    case CmpInst::ICMP_SLE: f.hi = std::min(f.hi, c); break;
    case CmpInst::ICMP_UGT:
      if (y.a == 0) f.ne.insert(I((uint64_t)c));
      if (f.lo >= 0 && c >= 0) f.lo = std::max(f.lo, c + 1);
      break;
    case CmpInst::ICMP_UGE: if (f.lo >= 0 && c >= 0) f.lo = std::max(f.lo, c); break;
    case CmpInst::ICMP_ULT:
      if (c >= 0) { f.lo = std::max<int64_t>(f.lo, -x.b); f.hi = std::min(f.hi, c - 1); }
      break;
    case CmpInst::ICMP_ULE:
      if (c >= 0) { f.lo = std::max<int64_t>(f.lo, -x.b); f.hi = std::min(f.hi, c); }
      break;
    default: break;
    }
    if (f.lo == f.hi) {
      f.bound = true;
      f.val = I((uint64_t)f.lo);
    }
  }

  // ------------------------------------------------------------ control
  void advance(State &s) { ++s.fr.back().it; }
  string canon(State &s) {
    string r;
    map<uint64_t, int> sym;
    std::function<void(const Val &)> put = [&](const Val &v0) {
      Val v = norm(s, v0);
      r += char('0' + v.k);
      if (v.k == Val::Sym) {
        auto it = sym.emplace(v.a, (int)sym.size()).first;
        r += std::to_string(it->second) + "+" + std::to_string(v.b);
      } else if (v.k == Val::Agg) {
        for (auto &x : *v.g)
          put(x);
      } else
        r += std::to_string(v.a) + "," + std::to_string(v.b);
      r += ';';
    };
    for (auto &f : s.fr) {
      r += std::to_string((uint64_t)f.bb) + ":" + std::to_string((uint64_t)&*f.it) + ":";
      for (auto &v : *f.regs)
        put(v);
    }
    for (auto &o : s.objs) {
      if (o->kind == OGlobal && o->cells.size() > 64)
        continue;
      r += '#';
      r += char('0' + o->dead);
      for (auto &c : o->cells) {
        r += std::to_string(c.first) + "=";
        put(c.second.v);
      }
    }
    r += '|';
    for (auto &l : s.locks)
      r += std::to_string(l.first.first) + "." + std::to_string(l.first.second) + ":" + std::to_string(l.second);
    for (auto &a : s.acts)
      r += a.used ? 'u' : '-';
    for (auto &w : s.waits)
      r += "w" + std::to_string(w.first) + (w.second.notified ? "n" : "-");
    r += "p" + std::to_string(s.parked.size());
    r += std::to_string(s.oomLeft) + "," + std::to_string(s.syncLeft) + "," + std::to_string(s.spurious) + "," + std::to_string(s.timeouts);
    for (auto &x : sym) {
      auto it = s.facts.find(x.first);
      if (it == s.facts.end())
        continue;
      r += "f" + std::to_string(x.second) + ":" + std::to_string(it->second.lo) + "," + std::to_string(it->second.hi);
      for (auto &n : it->second.ne)
        put(n);
    }
    return r;
  }
  void jump(State &s, const BasicBlock *to) {
    Frame &f = s.fr.back();
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    info(f.f).visited.insert(to);
    auto &v = f.loops[to];
    if (v.empty()) {
      v.push_back({"", s.nev, s.nfork});
      return;
    }
    int open = 0; // iterations in which something was left open
    for (size_t i = 1; i < v.size(); ++i)
      open += v[i].nfork != v[i - 1].nfork;
    if (open >= loopBound || (int)v.size() > loopBoundFixed) {
      finish(s, "loop-bound");
      return;
    }
    // canonical form after phis are evaluated would be ideal; phis read f.prev, which is part of bb history
    string c = canon(s) + std::to_string((uint64_t)f.prev);
    for (auto &p : v)
      if (p.nev == s.nev && p.c == c) {
        bool due = false;
        for (auto &a : s.acts)
          due |= !a.used;
        if (p.nfork == s.nfork && !due) { // no choice, nobody else can change anything: spins forever
          emit(s, "err", {}, {"livelock"});
          finish(s, "err");
        } else
          finish(s, "subsumed");
        return;
      }
    v.push_back({std::move(c), s.nev, s.nfork});
  }
  void pushFrame(State &s, const Function *fn, const vector<Val> &args, bool boundary, int tid) {
    if (s.fr.size() > 400) {
      emit(s, "err", {}, {"recursion-depth"});
      finish(s, "err");
      return;
    }
    fnSeen.insert(fn);
    Frame f;
    f.f = fn;
    f.bb = &fn->getEntryBlock();
    f.it = f.bb->begin();
    f.boundary = boundary;
    f.tid = tid;
    f.regs = std::make_shared<vector<Val>>(info(fn).n);
    info(fn).visited.insert(f.bb);
    for (size_t i = 0; i < args.size() && i < fn->arg_size(); ++i)
      (*f.regs)[i] = args[i];
    statMaxDepth = std::max<uint64_t>(statMaxDepth, s.fr.size() + 1);
    s.fr.push_back(std::move(f));
  }
  void popFrame(State &s) {
    for (int id : s.fr.back().allocas) {
      if (!obj(s, id).dead)
        hbEnd(s, id, "end of scope");
      Obj &o = wobj(s, id);
      o.dead = true;
      o.cells.clear();
    }
    s.fr.pop_back();
  }
  void doReturn(State &s, const Val &v) {
    bool boundary = s.fr.back().boundary;
    int act = s.fr.back().act, tid = s.fr.back().tid;
    popFrame(s);
    if (s.fr.empty()) {
      for (auto &pk : s.parked)
        emit(s, "parked", {I(pk.tid), s.waits[pk.tid].cv});
      finish(s, "return");
      return;
    }
    if (boundary) {
      if (act >= 0) {
        Action &a = s.acts[act];
        if (a.thread && !a.ended && a.arg.k == Val::Ptr && !obj(s, a.arg.a).dead) {
          // the thread's callable is destroyed by the thread itself
          a.ended = true;
          Val vt = loadScalar(s, a.arg, 8, true);
          Val del = vt.k == Val::Ptr ? loadScalar(s, P(vt.a, vt.b + 8), 8, true) : U;
          if (del.k == Val::Fn && !((const Function *)del.a)->isDeclaration()) {
            Val arg = a.arg;
            pushFrame(s, (const Function *)del.a, {arg}, true, tid);
            s.fr.back().act = act;
            return;
          }
        }
        s.acts[act].ended = true;
      }
      emit(s, "env-end", {I(tid)});
      return; // re-evaluate the interrupted instruction
    }
    const Instruction &ci = *s.fr.back().it;
    if (!ci.getType()->isVoidTy())
      set(s, &ci, v);
    if (auto *inv = dyn_cast<InvokeInst>(&ci))
      jump(s, inv->getNormalDest());
    else
      advance(s);
  }
  void finishCall(State &s, const CallBase &c, const Val &v) {
    if (!c.getType()->isVoidTy())
      set(s, &c, v);
    if (auto *inv = dyn_cast<InvokeInst>(&c))
      jump(s, inv->getNormalDest());
    else
      advance(s);
  }
  // Propagates exception object `exc`; the instruction of the top frame is the throwing call.
  void doThrow(State &s, int exc) {
    s.curExc = exc;
    while (!s.fr.empty()) {
      Frame &f = s.fr.back();
      const Instruction &ci = *f.it;
      if (auto *inv = dyn_cast<InvokeInst>(&ci)) {
        jump(s, inv->getUnwindDest());
        return;
      }
      if (auto *cb = dyn_cast<CallBase>(&ci))
        if (cb->doesNotThrow() && !isa<IntrinsicInst>(cb) && cb->getCalledFunction() && !cb->getCalledFunction()->isDeclaration()) {
          emit(s, "terminate", {P(exc, 0)}, {excType(s, exc), "exception leaves a noexcept function"});
          finish(s, "terminate");
          return;
        }
      bool boundary = f.boundary;
      int act = f.act;
      popFrame(s);
      if (boundary) {
        envThrow(s, exc, act);
        return;
      }
    }
    emit(s, "escape", {P(exc, 0)}, {excType(s, exc)});
    finish(s, "throw");
  }
  string excType(State &s, int exc) { return obj(s, exc).name; }
  void envThrow(State &s, int exc, int act) {
    if (act >= 0 && s.acts[act].thread) {
      emit(s, "terminate", {P(exc, 0)}, {excType(s, exc), "exception leaves a thread function"});
      finish(s, "terminate");
      return;
    }
    if (act >= 0)
      s.acts[act].ended = true;
    emit(s, "env-throw", {P(exc, 0)}, {excType(s, exc)});
  }
  int newExc(State &s, const string &type, int64_t size = 64) {
    int id = newObj(s, OExc, size);
    s.objs[id]->name = type;
    return id;
  }
  void throwNew(State &s, const string &type) { doThrow(s, newExc(s, type)); }

  static bool excMatch(const string &thrown, const string &c) {
    if (thrown == c)
      return true;
    static const map<string, vector<string>> bases = {
        {"_ZTISt12future_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt17bad_function_call", {"_ZTISt9exception"}},
        {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
        {"_ZTISt11logic_error", {"_ZTISt9exception"}},
        {"_ZTISt12system_error", {"_ZTISt13runtime_error", "_ZTISt9exception"}},
        {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
        {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt12bad_weak_ptr", {"_ZTISt9exception"}},
        {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc", "_ZTISt9exception"}},
        {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
        {"_ZTISt18bad_variant_access", {"_ZTISt9exception"}},
        {"_ZTISt19bad_optional_access", {"_ZTISt9exception"}},
    };
    auto it = bases.find(thrown);
    return it != bases.end() && std::find(it->second.begin(), it->second.end(), c) != it->second.end();
  }
  map<string, int> typeIds;
  int typeId(const string &n) {
    auto it = typeIds.find(n);
    if (it == typeIds.end())
      it = typeIds.emplace(n, (int)typeIds.size() + 1).first;
    return it->second;
  }

  // ------------------------------------------------------------ environment steps
  bool injecting(State &s) { return s.fr.back().tid != 1; }
  // Fork: one successor state per still unused environment action, performed before the current instruction.
  void syncPoint(State &s, int kindBit) {
    if (s.acts.empty() || s.syncLeft <= 0 || injecting(s))
      return;
    for (size_t i = 0; i < s.acts.size(); ++i) {
      if (s.acts[i].used || !(s.acts[i].flags & kindBit))
        continue;
      s.nfork++;
      State n = s;
      n.syncLeft--;
      startAction(n, i);
      work.push_back(std::move(n));
    }
    for (size_t i = 0; i < s.parked.size(); ++i)
      if (runnable(s, s.parked[i])) {
        s.nfork++;
        State n = s;
        n.syncLeft--;
        resume(n, i);
        work.push_back(std::move(n));
      }
    // the current state goes on without interference at this point
  }
  void startAction(State &s, size_t i) {
    s.acts[i].used = true;
    int tid = ++s.nthreads;
    {
      int t = std::min(tid, MAXT - 1);
      s.vc[t] = s.acts[i].vc;
      s.vc[t].c[t] = 1;
    }
    emit(s, "env-begin", {I(tid)}, {strs[s.acts[i].name]});
    const Function *fn = s.acts[i].f;
    Val arg = s.acts[i].arg;
    s.acts[i].tid = tid;
    pushFrame(s, fn, {arg}, true, tid);
    if (!s.done) {
      s.fr.back().act = i;
      s.fr.back().caughtBase = s.caught.size();
    }
  }
  // a thread other than the main one blocks: set it aside, the interrupted thread goes on
  void park(State &s) {
    int b = (int)s.fr.size() - 1;
    while (b >= 0 && !s.fr[b].boundary)
      --b;
    Parked pk;
    pk.tid = s.fr.back().tid;
    pk.fr.assign(s.fr.begin() + b, s.fr.end());
    int base = std::min<int>(s.fr[b].caughtBase, s.caught.size());
    pk.caught.assign(s.caught.begin() + base, s.caught.end());
    s.caught.resize(base);
    emit(s, "park", {I(pk.tid), s.waits[pk.tid].cv});
    s.fr.resize(b);
    s.parked.push_back(std::move(pk));
  }
  bool runnable(State &s, const Parked &pk) {
    auto it = s.waits.find(pk.tid);
    if (it == s.waits.end() || !it->second.notified)
      return false;
    return !s.locks.count(std::make_pair(it->second.mtx.a, it->second.mtx.b));
  }
  void resume(State &s, size_t i) {
    Parked pk = s.parked[i];
    s.parked.erase(s.parked.begin() + i);
    emit(s, "env-resume", {I(pk.tid)});
    pk.fr[0].caughtBase = s.caught.size();
    for (auto &f : pk.fr)
      s.fr.push_back(f);
    s.caught.insert(s.caught.end(), pk.caught.begin(), pk.caught.end());
  }

  // ------------------------------------------------------------ mutex / cv
  bool lockMutex(State &s, const Val &m, bool tryOnly, bool &got) {
    if (!access(s, m, 8, "mutex"))
      return false;
    auto key = std::make_pair(m.a, m.b);
    auto it = s.locks.find(key);
    int tid = s.fr.back().tid;
    if (it != s.locks.end()) {
      if (it->second == tid) {
        Val kind = loadScalar(s, P(m.a, m.b + 16), 4, false);
        if (kind.k == Val::Int && kind.a == 1) { // recursive
          ++s.relock[key];
          got = true;
          return true;
        }
      }
      if (tryOnly) {
        got = false;
        return true;
      }
      if (it->second == tid) {
        emit(s, "err", {m}, {"self-deadlock", "lock"});
        finish(s, "err");
        return false;
      }
      finish(s, "infeasible"); // this schedule cannot continue: the other thread holds the mutex
      return false;
    }
    s.locks[key] = tid;
    hbAccess(s, m, 8, false, true, "mutex lock");
    hbAcquire(s, m, 8, true);
    emit(s, "lock", {m});
    got = true;
    return true;
  }
  bool unlockMutex(State &s, const Val &m) {
    if (!access(s, m, 8, "mutex"))
      return false;
    auto key = std::make_pair(m.a, m.b);
    auto it = s.locks.find(key);
    if (it == s.locks.end() || it->second != s.fr.back().tid) {
      emit(s, "err", {m}, {"unlock-not-held"});
      finish(s, "err");
      return false;
    }
    auto re = s.relock.find(key);
    if (re != s.relock.end()) {
      if (--re->second == 0)
        s.relock.erase(re);
      return true;
    }
    s.locks.erase(it);
    hbAccess(s, m, 8, false, true, "mutex unlock");
    hbRelease(s, m, 8, true, false);
    emit(s, "unlock", {m});
    return true;
  }
  // The current instruction is a wait; evaluated repeatedly until the thread may go on.
  void cvWait(State &s, const CallBase &c, const Val &cv, const Val &m, bool timed, const Val &retOk, const Val &retTimeout) {
    int tid = s.fr.back().tid;
    if (!s.waits.count(tid)) {
      if (!access(s, cv, 8, "condition_variable") || !access(s, m, 8, "mutex"))
        return;
      auto key = std::make_pair(m.a, m.b);
      auto it = s.locks.find(key);
      if (it == s.locks.end() || it->second != tid) {
        emit(s, "err", {cv, m}, {"wait-without-lock"});
        finish(s, "err");
        return;
      }
      if (timed && s.timeouts >= 2) { // the clock does not keep denying a reported timeout
        finish(s, "infeasible");
        return;
      }
      emit(s, "cvwait", {cv, m}, {timed ? "timed" : "untimed"});
      s.locks.erase(it);
      hbAccess(s, cv, 8, false, true, "wait");
      hbAccess(s, m, 8, false, true, "wait");
      hbRelease(s, m, 8, true, false);
      Waiting w;
      w.on = true;
      w.cv = cv;
      w.mtx = m;
      w.timed = timed;
      s.waits[tid] = w;
    }
    auto wake = [&](State &n, const char *why, const Val &ret) {
      auto key = std::make_pair(m.a, m.b);
      n.waits.erase(tid);
      if (n.locks.count(key)) {
        finish(n, "infeasible");
        return;
      }
      if (!access(n, m, 8, "mutex"))
        return;
      n.locks[key] = n.fr.back().tid;
      hbAcquire(n, m, 8, true);
      emit(n, "cvwake", {cv, m}, {why});
      finishCall(n, c, ret);
    };
    bool notified = s.waits[tid].notified;
    if (notified && injecting(s)) {
      wake(s, "notified", retOk);
      return;
    }
    if (timed) {
      s.nfork++;
      State n = s;
      n.timeouts++;
      wake(n, "timeout", retTimeout);
      work.push_back(std::move(n));
    }
    if (injecting(s)) {
      if (timed && !s.longWaits)
        finish(s, "covered"); // the environment's timed waits end by timeout
      else
        park(s);
      return;
    }
    if (!s.spurious && !notified) {
      s.nfork++;
      State n = s;
      n.spurious = true;
      wake(n, "spurious", retOk);
      work.push_back(std::move(n));
    }
    bool any = false;
    for (size_t i = 0; i < s.acts.size(); ++i) {
      if (s.acts[i].used || !(s.acts[i].flags & 1))
        continue;
      s.nfork++;
      State n = s;
      startAction(n, i);
      work.push_back(std::move(n));
      any = true;
    }
    for (size_t i = 0; i < s.parked.size(); ++i)
      if (runnable(s, s.parked[i])) {
        s.nfork++;
        State n = s;
        resume(n, i);
        work.push_back(std::move(n));
        any = true;
      }
    if (notified) {
      wake(s, "notified", retOk);
      return;
    }
    if (any) {
      finish(s, "covered");
      return;
    }
    emit(s, "blocked", {cv, m});
    finish(s, "blocked");
  }
  void notify(State &s, const Val &cv, bool all) {
    if (!access(s, cv, 8, "condition_variable"))
      return;
    hbAccess(s, cv, 8, false, true, "notify");
    emit(s, "notify", {cv}, {all ? "all" : "one"});
    vector<int> ws;
    for (auto &w : s.waits)
      if (w.second.on && w.second.cv == cv && !w.second.notified)
        ws.push_back(w.first);
    if (ws.empty())
      return;
    if (all) {
      for (int t : ws)
        s.waits[t].notified = true;
      return;
    }
    s.waits[ws[0]].notified = true;
    // notify_one: any of the waiters may be the one
    pendingNotify.clear();
    for (size_t i = 1; i < ws.size(); ++i)
      pendingNotify.push_back(ws[i]);
    pendingFirst = ws[0];
  }
  vector<int> pendingNotify;
  int pendingFirst = 0;
  // to be called after the notifying call instruction has been completed in s
  void forkNotify(State &s) {
    for (int t : pendingNotify) {
      s.nfork++;
      State n = s;
      n.waits[pendingFirst].notified = false;
      n.waits[t].notified = true;
      work.push_back(std::move(n));
    }
    pendingNotify.clear();
  }

  // ------------------------------------------------------------ externals
  string cstr(State &s, const Val &p) {
    string r;
    if (p.k != Val::Ptr)
      return "?";
    const Obj &o = obj(s, p.a);
    for (int64_t i = p.b; i < p.b + 200; ++i) {
      auto it = o.cells.find(i);
      if (it == o.cells.end() || it->second.v.k != Val::Int || it->second.v.a == 0)
        break;
      r += (char)it->second.v.a;
    }
    return r;
  }
  void markReach(State &s, uint64_t id, std::set<uint64_t> &seen) {
    if (!seen.insert(id).second || s.objs[id]->kind == OGlobal)
      return;
    for (auto &c : s.objs[id]->cells)
      if (c.second.v.k == Val::Ptr)
        markReach(s, c.second.v.a, seen);
  }

  typedef std::function<void(State &, const CallBase &, const vector<Val> &)> Model;
  std::unordered_map<const Function *, Model> models;
  map<string, Model> byName;   // exact mangled or demangled name
  vector<std::pair<string, Model>> byPrefix; // demangled prefix

  const Model *modelFor(const Function *f) {
    auto it = models.find(f);
    if (it != models.end())
      return it->second ? &it->second : nullptr;
    Model m;
    auto n = byName.find(f->getName().str());
    if (n == byName.end())
      n = byName.find(dem(f));
    if (n != byName.end())
      m = n->second;
    else
      for (auto &p : byPrefix)
        if (dem(f).compare(0, p.first.size(), p.first) == 0) {
          m = p.second;
          break;
        }
    models[f] = m;
    return m ? &models[f] : nullptr;
  }
  void allocate(State &s, const CallBase &c, const vector<Val> &a) {
    if (s.oomLeft > 0) {
      s.nfork++;
      State n = s;
      n.oomLeft--;
      emit(n, "oom");
      throwNew(n, "_ZTISt9bad_alloc");
      work.push_back(std::move(n));
    }
    int64_t sz = a[0].k == Val::Int ? (int64_t)a[0].a : -1;
    int id = newObj(s, OHeap, sz);
    int fn;
    s.objs[id]->allocLoc = locOf(s, fn);
    s.objs[id]->align = a.size() > 1 && a[1].k == Val::Int ? a[1].a : 16;
    finishCall(s, c, P(id, 0));
  }
  void release(State &s, const CallBase &c, const Val &p) {
    if (p.k == Val::Int && p.a == 0) {
      finishCall(s, c, U);
      return;
    }
    if (p.k != Val::Ptr || obj(s, p.a).kind != OHeap || p.b != 0) {
      emit(s, "err", {p}, {"bad-free"});
      finish(s, "err");
      return;
    }
    if (obj(s, p.a).dead) {
      emit(s, "err", {p}, {"double-free"});
      finish(s, "err");
      return;
    }
    hbEnd(s, p.a, "free");
    Obj &o = wobj(s, p.a);
    o.dead = true;
    o.cells.clear();
    int ffn;
    o.freeLoc = locOf(s, ffn);
    for (auto &l : s.locks)
      if (l.first.first == p.a) {
        emit(s, "err", {p}, {"destroy-locked-mutex"});
        finish(s, "err");
        return;
      }
    finishCall(s, c, U);
  }
  void setupModels() {
    auto nop = [this](State &s, const CallBase &c, const vector<Val> &) { finishCall(s, c, U); };
    auto ret0 = [this](State &s, const CallBase &c, const vector<Val> &) { finishCall(s, c, I(0)); };
    auto fresh = [this](State &s, const CallBase &c, const vector<Val> &) {
      finishCall(s, c, S(newSym("ext")));
    };
    auto alloc = [this](State &s, const CallBase &c, const vector<Val> &a) { allocate(s, c, a); };
    auto free_ = [this](State &s, const CallBase &c, const vector<Val> &a) { release(s, c, a[0]); };
    for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t", "__cxa_allocate_exception_dummy"})
      byName[n] = alloc;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t"})
      byName[n] = free_;
    // --- driver vocabulary
    byName["vx_any"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      string n = a.empty() ? "any" : cstr(s, a[0]);
      Val v = S(newSym(n));
      emit(s, "any", {v}, {n}, false);
      finishCall(s, c, v);
    };
    byName["vx_bool"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      string n = cstr(s, a[0]);
      s.nfork++;
      State t = s;
      emit(s, "choose", {I(0)}, {n}, false);
      emit(t, "choose", {I(1)}, {n}, false);
      finishCall(s, c, I(0));
      finishCall(t, c, I(1));
      work.push_back(std::move(t));
    };
    byName["vx_pick"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      string n = cstr(s, a[0]);
      for (uint64_t i = 1; i < a[1].a; ++i) {
        s.nfork++;
      State t = s;
        emit(t, "choose", {I(i)}, {n}, false);
        finishCall(t, c, I(i));
        work.push_back(std::move(t));
      }
      emit(s, "choose", {I(0)}, {n}, false);
      finishCall(s, c, I(0));
    };
    byName["vx_ev"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!injecting(s))
        s.timeouts = 0;
      vector<Val> r(a.begin() + 1, a.end());
      string n = cstr(s, a[0]);
      syncPoint(s, 4);
      emit(s, "ev", std::move(r), {n});
      finishCall(s, c, U);
    };
    byName["vx_stop"] = [this](State &s, const CallBase &, const vector<Val> &) { finish(s, "infeasible"); };
    byName["vx_oom"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      s.oomLeft = a[0].a;
      finishCall(s, c, U);
    };
    byName["vx_longwaits"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      s.longWaits = true;
      finishCall(s, c, U);
    };
    byName["vx_nospurious"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      s.spurious = true;
      finishCall(s, c, U);
    };
    // vx_rely(name, fn, arg, flags): environment action; flag 1 at waits, 2 at atomics/locks, 4 at driver events, 8 at refcounts
    byName["vx_rely"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      Action x;
      x.name = intern(cstr(s, a[0]));
      x.f = (const Function *)a[1].a;
      x.arg = a[2];
      x.flags = a[3].a;
      x.used = false;
      hbOn(s);
      {
        int t = hbTid(s);
        x.vc = s.vc[t];
        s.vc[t].c[t]++;
      }
      s.acts.push_back(x);
      s.syncLeft = std::max(s.syncLeft, 1);
      finishCall(s, c, U);
    };
    byName["vx_budget"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      s.syncLeft = a[0].a;
      finishCall(s, c, U);
    };
    // the environment threads have been joined
    byName["vx_join"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      int t = hbTid(s);
      for (int i = 0; i < MAXT; ++i)
        s.vc[t].join(s.vc[i]);
      finishCall(s, c, U);
    };
    byName["vx_end"] = [this](State &s, const CallBase &c, const vector<Val> &a) { finish(s, "end"); };
    byName["vx_rely_off"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      for (auto &x : s.acts)
        x.used = true;
      finishCall(s, c, U);
    };
    // run every action that has not happened yet
    byName["vx_rest"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      // any order
      vector<size_t> l, r;
      for (size_t i = 0; i < s.acts.size(); ++i)
        if (!s.acts[i].used)
          l.push_back(i);
      for (size_t i = 0; i < s.parked.size(); ++i)
        if (runnable(s, s.parked[i]))
          r.push_back(i);
      if (l.empty() && r.empty()) {
        finishCall(s, c, U);
        return;
      }
      vector<State> alt;
      for (auto i : l) {
        s.nfork++;
        State n = s;
        startAction(n, i);
        alt.push_back(std::move(n));
      }
      for (auto i : r) {
        s.nfork++;
        State n = s;
        resume(n, i);
        alt.push_back(std::move(n));
      }
      for (auto &n : alt)
        work.push_back(std::move(n));
      finish(s, "covered");
    };
    byName["vx_share"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      std::set<uint64_t> seen;
      if (a[0].k == Val::Ptr)
        markReach(s, a[0].a, seen);
      for (auto id : seen)
        if (s.objs[id]->kind == OHeap)
          wobj(s, id).shared = true;
      finishCall(s, c, U);
    };
    byName["vx_watch"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      string n = cstr(s, a[0]);
      if (a[1].k == Val::Ptr)
        wobj(s, a[1].a).watch = intern(n);
      finishCall(s, c, U);
    };
    byName["vx_watch_reach"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      std::set<uint64_t> seen;
      string n = cstr(s, a[0]);
      if (a[1].k == Val::Ptr)
        markReach(s, a[1].a, seen);
      for (auto id : seen)
        if (s.objs[id]->kind == OHeap)
          wobj(s, id).watch = intern(n);
      finishCall(s, c, U);
    };
    byName["vx_live_heap"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      uint64_t n = 0;
      for (auto &o : s.objs)
        n += o->kind == OHeap && !o->dead;
      finishCall(s, c, I(n));
    };
    byName["vx_dump"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      for (auto &o : s.objs) {
        if (o->kind == OGlobal)
          continue;
        errs() << "obj " << o->id << " kind " << o->kind << " size " << o->size << " dead " << o->dead << ":";
        for (auto &x : o->cells)
          errs() << " [" << x.first << "/" << x.second.size << "]=" << show(norm(s, x.second.v));
        errs() << "\n";
      }
      finishCall(s, c, U);
    };
    // --- pthread
    byName["pthread_mutex_lock"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      syncPoint(s, 2);
      bool got;
      if (lockMutex(s, a[0], false, got))
        finishCall(s, c, I(0));
    };
    byName["pthread_mutex_trylock"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      bool got;
      if (lockMutex(s, a[0], true, got))
        finishCall(s, c, I(got ? 0 : 16));
    };
    byName["pthread_mutex_unlock"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!unlockMutex(s, a[0]))
        return;
      // an environment step may follow the unlock immediately: that point is the next sync point
      finishCall(s, c, I(0));
    };
    byName["std::condition_variable::condition_variable()"] = nop;
    byName["std::condition_variable::~condition_variable()"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!access(s, a[0], 8, "condition_variable"))
        return;
      hbAccess(s, a[0], 8, true, false, "condition_variable destruction");
      emit(s, "cvdtor", {a[0]});
      finishCall(s, c, U);
    };
    byName["std::condition_variable::notify_one()"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      syncPoint(s, 2);
      notify(s, a[0], false);
      if (!s.done) {
        finishCall(s, c, U);
        forkNotify(s);
      }
    };
    byName["std::condition_variable::notify_all()"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      syncPoint(s, 2);
      notify(s, a[0], true);
      if (!s.done)
        finishCall(s, c, U);
    };
    auto wait_ = [this](State &s, const CallBase &c, const vector<Val> &a) {
      // unique_lock<mutex>: { mutex*, bool }
      if (!access(s, a[1], 16, "unique_lock"))
        return;
      Val m = loadScalar(s, a[1], 8, true);
      cvWait(s, c, a[0], m, false, U, U);
    };
    byName["std::condition_variable::wait(std::unique_lock<std::mutex>&)"] = wait_;
    auto clockwait = [this](State &s, const CallBase &c, const vector<Val> &a) {
      cvWait(s, c, a[0], a[1], true, I(0), I(110));
    };
    byName["pthread_cond_clockwait"] = clockwait;
    byName["pthread_cond_timedwait"] = clockwait;
    byName["pthread_cond_wait"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      cvWait(s, c, a[0], a[1], false, I(0), I(0));
    };
    byName["pthread_cond_signal"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      notify(s, a[0], false);
      if (!s.done) {
        finishCall(s, c, I(0));
        forkNotify(s);
      }
    };
    byName["pthread_cond_broadcast"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      notify(s, a[0], true);
      if (!s.done)
        finishCall(s, c, I(0));
    };
    byName["__pthread_key_create"] = ret0;
    byName["pthread_self"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      finishCall(s, c, I(1000 + s.fr.back().tid));
    };
    // --- threads
    byPrefix.push_back({"std::thread::_M_start_thread(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (s.oomLeft > 0) {
        s.nfork++;
        State n = s;
        n.oomLeft--;
        emit(n, "oom");
        throwNew(n, "_ZTISt12system_error");
        work.push_back(std::move(n));
      }
      Val st = a[1].k == Val::Ptr ? loadScalar(s, a[1], 8, true) : U;
      int id = s.acts.size();
      if (a[1].k == Val::Ptr)
        storeScalar(s, a[1], 8, I(0));
      emit(s, "thread-start", {st, I(1000 + id)});
      Val vt = st.k == Val::Ptr ? loadScalar(s, st, 8, true) : U;
      Val run = vt.k == Val::Ptr ? loadScalar(s, P(vt.a, vt.b + 16), 8, true) : U;
      if (run.k != Val::Fn || ((const Function *)run.a)->isDeclaration()) {
        emit(s, "err", {st}, {"unknown-call", "thread function"});
        finish(s, "err");
        return;
      }
      Action x;
      x.name = intern("thread");
      x.f = (const Function *)run.a;
      x.arg = st;
      x.flags = 3;
      x.used = false;
      x.thread = true;
      hbOn(s);
      {
        int t = hbTid(s);
        x.vc = s.vc[t];
        s.vc[t].c[t]++;
      }
      s.acts.push_back(x);
      if (a[0].k == Val::Ptr)
        storeScalar(s, a[0], 8, I(1000 + id));
      finishCall(s, c, U);
    }});
    byName["std::thread::join()"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!access(s, a[0], 8, "thread"))
        return;
      Val id = loadScalar(s, a[0], 8, false);
      int ai = id.k == Val::Int ? (int)id.a - 1000 : -1;
      if (ai < 0 || ai >= (int)s.acts.size() || !s.acts[ai].thread) {
        emit(s, "err", {id}, {"join-of-no-thread"});
        finish(s, "err");
        return;
      }
      if (s.acts[ai].used && s.acts[ai].ended && !isParked(s, s.acts[ai].tid)) {
        int t = hbTid(s);
        s.vc[t].join(s.vc[std::min(s.acts[ai].tid, MAXT - 1)]);
        emit(s, "thread-join", {id});
        storeScalar(s, a[0], 8, I(0));
        finishCall(s, c, U);
        return;
      }
      if (injecting(s)) {
        finish(s, "infeasible");
        return;
      }
      bool any = false;
      vector<State> alt;
      for (size_t i = 0; i < s.acts.size(); ++i)
        if (!s.acts[i].used && (s.acts[i].flags & 1)) {
          s.nfork++;
          State n = s;
          startAction(n, i);
          alt.push_back(std::move(n));
        }
      for (size_t i = 0; i < s.parked.size(); ++i)
        if (runnable(s, s.parked[i])) {
          s.nfork++;
          State n = s;
          resume(n, i);
          alt.push_back(std::move(n));
        }
      if (alt.empty()) {
        emit(s, "blocked", {id}, {"join"});
        finish(s, "blocked");
        return;
      }
      for (auto &n : alt)
        work.push_back(std::move(n));
      finish(s, "covered");
    };
    byName["std::thread::detach()"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!access(s, a[0], 8, "thread"))
        return;
      emit(s, "thread-detach", {loadScalar(s, a[0], 8, false)});
      storeScalar(s, a[0], 8, I(0));
      finishCall(s, c, U);
    };
    byPrefix.push_back({"std::chrono::_V2::", fresh});
    // --- exceptions
    byName["__cxa_allocate_exception"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      finishCall(s, c, P(newExc(s, "", a[0].k == Val::Int ? a[0].a : -1), 0));
    };
    byName["__cxa_free_exception"] = nop;
    byName["__cxa_init_primary_exception"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (a[0].k == Val::Ptr && a[1].k == Val::Ptr)
        wobj(s, a[0].a).name = obj(s, a[1].a).name;
      finishCall(s, c, a[0]);
    };
    byName["__cxa_throw"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (a[1].k == Val::Ptr)
        wobj(s, a[0].a).name = obj(s, a[1].a).name;
      emit(s, "throw", {a[0]}, {excType(s, a[0].a)});
      doThrow(s, a[0].a);
    };
    byName["__cxa_rethrow"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (s.caught.empty()) {
        emit(s, "terminate", {}, {"", "rethrow without exception"});
        finish(s, "terminate");
        return;
      }
      emit(s, "rethrow", {P(s.caught.back(), 0)}, {excType(s, s.caught.back())});
      doThrow(s, s.caught.back());
    };
    byName["__cxa_begin_catch"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (a[0].k != Val::Ptr) {
        finishCall(s, c, U);
        return;
      }
      s.caught.push_back(a[0].a);
      emit(s, "catch", {a[0]}, {excType(s, a[0].a)});
      finishCall(s, c, a[0]);
    };
    byName["__cxa_get_exception_ptr"] = [this](State &s, const CallBase &c, const vector<Val> &a) { finishCall(s, c, a[0]); };
    byName["__cxa_end_catch"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!s.caught.empty())
        s.caught.pop_back();
      finishCall(s, c, U);
    };
    auto term = [this](State &s, const CallBase &c, const vector<Val> &a) {
      emit(s, "terminate", {}, {"", dem(c.getCalledFunction() ? c.getCalledFunction() : s.fr.back().f)});
      finish(s, "terminate");
    };
    byName["_ZSt9terminatev"] = term;
    byName["__clang_call_terminate"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      emit(s, "terminate", {a[0]}, {a[0].k == Val::Ptr ? excType(s, a[0].a) : "", "exception leaves a noexcept function"});
      finish(s, "terminate");
    };
    byName["abort"] = term;
    byName["__cxa_pure_virtual"] = term;
    byName["__assert_fail"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      emit(s, "assert-fail", {}, {cstr(s, a[0])});
      finish(s, "assert");
    };
    byName["_ZSt17current_exceptionv"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      storeScalar(s, a[0], 8, s.caught.empty() ? I(0) : P(s.caught.back(), 0));
      finishCall(s, c, U);
    };
    byName["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      Val e = loadScalar(s, a[0], 8, true);
      if (e.k != Val::Ptr) {
        emit(s, "terminate", {e}, {"", "rethrow_exception(nullptr)"});
        finish(s, "terminate");
        return;
      }
      emit(s, "rethrow", {e}, {excType(s, e.a)});
      doThrow(s, e.a);
    };
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::_M_addref(", nop});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::_M_release(", nop});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::_M_get(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      finishCall(s, c, loadScalar(s, a[0], 8, true));
    }});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::exception_ptr(void*)", [this](State &s, const CallBase &c, const vector<Val> &a) {
      storeScalar(s, a[0], 8, a[1]);
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::exception_ptr(std::__exception_ptr::exception_ptr const&)", [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!access(s, a[1], 8, "exception_ptr"))
        return;
      hbAccess(s, a[1], 8, false, false, "read");
      hbAccess(s, a[0], 8, true, false, "write");
      storeScalar(s, a[0], 8, loadScalar(s, a[1], 8, true));
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::swap(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      Val x = loadScalar(s, a[0], 8, true), y = loadScalar(s, a[1], 8, true);
      storeScalar(s, a[0], 8, y);
      storeScalar(s, a[1], 8, x);
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::operator=(std::__exception_ptr::exception_ptr const&)", [this](State &s, const CallBase &c, const vector<Val> &a) {
      storeScalar(s, a[0], 8, loadScalar(s, a[1], 8, true));
      finishCall(s, c, a[0]);
    }});
    byPrefix.push_back({"std::__exception_ptr::exception_ptr::~exception_ptr(", nop});
    // future_error: keep the error code in the exception object
    auto ferr = [this](State &s, const CallBase &c, const vector<Val> &a) {
      emit(s, "future-error", {a[0], a[1]});
      storeScalar(s, a[0], 8, a[1]);
      finishCall(s, c, U);
    };
    byPrefix.push_back({"std::future_error::future_error(std::future_errc)", ferr});
    byPrefix.push_back({"std::future_error::future_error(std::error_code)", ferr});
    byPrefix.push_back({"std::future_error::future_error(std::future_error const&)", [this](State &s, const CallBase &c, const vector<Val> &a) {
      storeScalar(s, a[0], 8, loadScalar(s, a[1], 8, false));
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::future_error::~future_error(", nop});
    byPrefix.push_back({"std::logic_error::logic_error(", nop});
    byPrefix.push_back({"std::runtime_error::runtime_error(", nop});
    byPrefix.push_back({"std::logic_error::~logic_error(", nop});
    byPrefix.push_back({"std::bad_function_call::~bad_function_call(", nop});
    byPrefix.push_back({"std::exception::~exception(", nop});
    byPrefix.push_back({"std::__throw_system_error(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt12system_error"); }});
    byPrefix.push_back({"std::__throw_bad_weak_ptr(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt12bad_weak_ptr"); }});
    byPrefix.push_back({"std::__throw_bad_alloc(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt9bad_alloc"); }});
    byPrefix.push_back({"std::__throw_bad_array_new_length(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt9bad_alloc"); }});
    byPrefix.push_back({"std::__throw_length_error(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt12length_error"); }});
    byPrefix.push_back({"std::__throw_logic_error(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt11logic_error"); }});
    byPrefix.push_back({"std::__throw_out_of_range", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt12out_of_range"); }});
    byPrefix.push_back({"std::__throw_bad_function_call(", [this](State &s, const CallBase &c, const vector<Val> &a) { throwNew(s, "_ZTISt17bad_function_call"); }});
    byName["__cxa_guard_acquire"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      Val v = loadScalar(s, a[0], 1, false);
      hbAcquire(s, a[0], 1, true);
      finishCall(s, c, I(v.k == Val::Int && v.a ? 0 : 1));
    };
    byName["__cxa_guard_release"] = [this](State &s, const CallBase &c, const vector<Val> &a) {
      storeScalar(s, a[0], 1, I(1));
      hbRelease(s, a[0], 1, true, false);
      finishCall(s, c, U);
    };
    byName["__cxa_guard_abort"] = nop;
    byName["sched_yield"] = ret0;
    byName["nanosleep"] = ret0;
    byName["clock_nanosleep"] = ret0;
    byName["usleep"] = ret0;
    byName["__cxa_atexit"] = ret0;
    byName["strlen"] = [this](State &s, const CallBase &c, const vector<Val> &a) { finishCall(s, c, I(cstr(s, a[0]).size())); };
    byPrefix.push_back({"std::type_info::operator==(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      finishCall(s, c, I(a[0] == a[1]));
    }});
    // std::list node primitives live in libstdc++.so: { next, prev }
    byPrefix.push_back({"std::__detail::_List_node_base::_M_hook(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      Val self = a[0], pos = a[1];
      if (!access(s, self, 16, "list") || !access(s, pos, 16, "list"))
        return;
      Val prev = loadScalar(s, P(pos.a, pos.b + 8), 8, true);
      storeScalar(s, self, 8, pos);
      storeScalar(s, P(self.a, self.b + 8), 8, prev);
      storeScalar(s, prev, 8, self);
      storeScalar(s, P(pos.a, pos.b + 8), 8, self);
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::__detail::_List_node_base::_M_unhook(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      if (!access(s, a[0], 16, "list"))
        return;
      Val next = loadScalar(s, a[0], 8, true), prev = loadScalar(s, P(a[0].a, a[0].b + 8), 8, true);
      storeScalar(s, prev, 8, next);
      storeScalar(s, P(next.a, next.b + 8), 8, prev);
      finishCall(s, c, U);
    }});
    byPrefix.push_back({"std::__detail::_List_node_base::_M_transfer(", [this](State &s, const CallBase &c, const vector<Val> &a) {
      Val self = a[0], first = a[1], last = a[2];
      if (!(self == last)) {
        auto nx = [&](Val v) { return loadScalar(s, v, 8, true); };
        auto pv = [&](Val v) { return loadScalar(s, P(v.a, v.b + 8), 8, true); };
        auto sn = [&](Val v, Val x) { storeScalar(s, v, 8, x); };
        auto sp = [&](Val v, Val x) { storeScalar(s, P(v.a, v.b + 8), 8, x); };
        Val lp = pv(last), fp = pv(first), tp = pv(self);
        sn(lp, self); sn(fp, last); sn(tp, first);
        sp(self, lp); sp(last, fp); sp(first, tp);
      }
      finishCall(s, c, U);
    }});
  }
  void syncPoint2(State &s, int bit) { syncPoint(s, bit); }

  bool refcountAtomic(State &s) {
    int n = 0;
    for (int i = (int)s.fr.size() - 1; i >= 0 && n < 3; --i, ++n) {
      const string &d = dem(s.fr[i].f);
      if (d.compare(0, 10, "__gnu_cxx:") == 0 || d.find("std::_Sp_counted_base") == 0 || d.find("std::__is_single") == 0)
        return true;
    }
    return false;
  }
  static const char *ord(AtomicOrdering o) {
    switch (o) {
    case AtomicOrdering::Monotonic: return "relaxed";
    case AtomicOrdering::Acquire: return "acquire";
    case AtomicOrdering::Release: return "release";
    case AtomicOrdering::AcquireRelease: return "acq_rel";
    case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
    default: return "none";
    }
  }
  void watchEv(State &s, const char *kind, const Val &p, const Val &v) {
    if (p.k != Val::Ptr)
      return;
    const Obj &o = obj(s, p.a);
    if (o.watch >= 0)
      emit(s, kind, {p, v}, {strs[o.watch]}, kind[0] == 's');
  }

  // ------------------------------------------------------------ one instruction
  void step(State &s) {
    Frame &f = s.fr.back();
    const Instruction &ins = *f.it;
    ++statSteps;
    ++s.steps;
    if (s.steps > maxSteps) {
      finish(s, "step-bound");
      return;
    }
    switch (ins.getOpcode()) {
    case Instruction::Alloca: {
      auto &x = cast<AllocaInst>(ins);
      auto sz = x.getAllocationSize(*DL);
      int id = newObj(s, OStack, sz ? (int64_t)sz->getFixedValue() : -1);
      s.objs[id]->name = x.getName().str();
      s.objs[id]->align = x.getAlign().value();
      s.fr.back().allocas.push_back(id);
      set(s, &x, P(id, 0));
      advance(s);
      return;
    }
    case Instruction::Load: {
      auto &x = cast<LoadInst>(ins);
      Val p = get(s, x.getPointerOperand());
      if (!access(s, p, sizeOf(x.getType()), "load", x.getAlign().value()))
        return;
      Val v;
      if (x.isAtomic()) {
        bool rc = refcountAtomic(s);
        syncPoint(s, rc ? 8 : 2);
        hbAccess(s, p, sizeOf(x.getType()), false, true, "atomic load");
        hbAcquire(s, p, sizeOf(x.getType()), isAcq(x.getOrdering()));
        if (obj(s, p.a).shared && !rc) {
          v = S(newSym("atomic"));
        } else
          v = load(s, p, x.getType());
        if (!rc)
          emit(s, "atomic", {p, v}, {"load", ord(x.getOrdering())}, false);
      } else {
        hbAccess(s, p, sizeOf(x.getType()), false, false, "read");
        v = load(s, p, x.getType());
        watchEv(s, "load", p, v);
      }
      set(s, &x, v);
      advance(s);
      return;
    }
    case Instruction::Store: {
      auto &x = cast<StoreInst>(ins);
      Val p = get(s, x.getPointerOperand());
      Val v = get(s, x.getValueOperand());
      if (!access(s, p, sizeOf(x.getValueOperand()->getType()), "store", x.getAlign().value()))
        return;
      if (obj(s, p.a).kind == OGlobal && M->getGlobalVariable(obj(s, p.a).name, true) &&
          M->getGlobalVariable(obj(s, p.a).name, true)->isConstant()) {
        emit(s, "err", {p}, {"write-to-constant"});
        finish(s, "err");
        return;
      }
      if (x.isAtomic()) {
        bool rc = refcountAtomic(s);
        syncPoint(s, rc ? 8 : 2);
        hbAccess(s, p, sizeOf(x.getValueOperand()->getType()), true, true, "atomic store");
        hbRelease(s, p, sizeOf(x.getValueOperand()->getType()), isRel(x.getOrdering()), false);
        if (!rc)
          emit(s, "atomic", {p, v, v}, {"store", ord(x.getOrdering())});
      } else {
        hbAccess(s, p, sizeOf(x.getValueOperand()->getType()), true, false, "write");
        watchEv(s, "store", p, v);
      }
      store(s, p, x.getValueOperand()->getType(), v);
      advance(s);
      return;
    }
    case Instruction::GetElementPtr: {
      auto &x = cast<GetElementPtrInst>(ins);
      Val p = get(s, x.getPointerOperand());
      int64_t off = 0;
      bool known = true;
      for (auto it = gep_type_begin(x), e = gep_type_end(x); it != e; ++it) {
        auto *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) {
          off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
        } else {
          Val v = get(s, idx);
          int64_t es = it.getSequentialElementStride(*DL).getFixedValue();
          if (v.k == Val::Int)
            off += sextTo(v.a, bitsOf(idx->getType())) * es;
          else
            known = false;
        }
      }
      if (!known || p.k == Val::Undef)
        set(s, &x, known ? U : S(newSym("gep")));
      else if (p.k == Val::Ptr || p.k == Val::Sym) {
        p.b += off;
        set(s, &x, p);
      } else if (p.k == Val::Int)
        set(s, &x, I(p.a + off));
      else
        set(s, &x, off ? U : p);
      advance(s);
      return;
    }
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::Freeze: {
      Val v = get(s, ins.getOperand(0));
      unsigned sb = bitsOf(ins.getOperand(0)->getType()), db = bitsOf(ins.getType());
      if (v.k == Val::Int) {
        if (ins.getOpcode() == Instruction::SExt)
          v = I(maskTo((uint64_t)sextTo(v.a, sb), db));
        else
          v = I(maskTo(v.a, std::min(sb, db)));
      }
      set(s, &ins, v);
      advance(s);
      return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg: case Instruction::FCmp: {
      if (ins.getOpcode() == Instruction::FCmp) {
        s.nfork++;
      State n = s;
        set(n, &ins, I(1));
        advance(n);
        work.push_back(std::move(n));
        set(s, &ins, I(0));
      } else
        set(s, &ins, S(newSym("fp")));
      advance(s);
      return;
    }
    case Instruction::ICmp: {
      auto &x = cast<ICmpInst>(ins);
      Val a = get(s, x.getOperand(0)), b = get(s, x.getOperand(1));
      unsigned bits = bitsOf(x.getOperand(0)->getType());
      int r = evalCmp(s, x.getPredicate(), a, b, bits);
      if (r >= 0) {
        set(s, &x, I(r));
        advance(s);
        return;
      }
      if (a.k == Val::Undef || b.k == Val::Undef)
        emit(s, "undef-cmp", {}, {}, false);
      s.nfork++;
      State n = s;
      assumeCmp(n, x.getPredicate(), a, b, bits, false);
      emit(n, "branch", {I(0), a, b}, {CmpInst::getPredicateName(x.getPredicate()).str()}, false);
      set(n, &x, I(0));
      advance(n);
      work.push_back(std::move(n));
      assumeCmp(s, x.getPredicate(), a, b, bits, true);
      emit(s, "branch", {I(1), a, b}, {CmpInst::getPredicateName(x.getPredicate()).str()}, false);
      set(s, &x, I(1));
      advance(s);
      return;
    }
    case Instruction::Br: {
      auto &x = cast<BranchInst>(ins);
      if (!x.isConditional()) {
        jump(s, x.getSuccessor(0));
        return;
      }
      Val c = get(s, x.getCondition());
      if (c.k == Val::Int) {
        jump(s, x.getSuccessor(c.a & 1 ? 0 : 1));
        return;
      }
      s.nfork++;
      State n = s;
      if (c.k == Val::Sym) {
        int r = evalEq(s, c, I(0));
        if (r >= 0) {
          jump(s, x.getSuccessor(r ? 1 : 0));
          return;
        }
        assumeEq(n, c, I(0), true);
        assumeEq(s, c, I(0), false);
        assumeEq(s, c, I(1), true);
      } else
        emit(s, "undef-branch", {}, {}, false);
      emit(n, "branch", {I(0), c}, {"br"}, false);
      emit(s, "branch", {I(1), c}, {"br"}, false);
      jump(n, x.getSuccessor(1));
      work.push_back(std::move(n));
      jump(s, x.getSuccessor(0));
      return;
    }
    case Instruction::Switch: {
      auto &x = cast<SwitchInst>(ins);
      Val c = get(s, x.getCondition());
      if (c.k == Val::Int) {
        auto *ci = ConstantInt::get(cast<IntegerType>(x.getCondition()->getType()), c.a);
        jump(s, x.findCaseValue(ci)->getCaseSuccessor());
        return;
      }
      for (auto &cs : x.cases()) {
        Val k = I(cs.getCaseValue()->getZExtValue());
        int r = evalEq(s, c, k);
        if (r == 0)
          continue;
        s.nfork++;
      State n = s;
        assumeEq(n, c, k, true);
        emit(n, "branch", {k, c}, {"switch"}, false);
        jump(n, cs.getCaseSuccessor());
        work.push_back(std::move(n));
        assumeEq(s, c, k, false);
      }
      emit(s, "branch", {U, c}, {"switch"}, false);
      jump(s, x.getDefaultDest());
      return;
    }
    case Instruction::PHI: {
      // evaluate all phis of the block in parallel
      vector<std::pair<const PHINode *, Val>> vals;
      auto it = f.it;
      for (; it != f.bb->end(); ++it) {
        auto *ph = dyn_cast<PHINode>(&*it);
        if (!ph)
          break;
        int idx = ph->getBasicBlockIndex(f.prev);
        vals.push_back({ph, idx >= 0 ? get(s, ph->getIncomingValue(idx)) : U});
      }
      for (auto &p : vals)
        set(s, p.first, p.second);
      s.fr.back().it = it;
      return;
    }
    case Instruction::Select: {
      auto &x = cast<SelectInst>(ins);
      Val c = get(s, x.getCondition());
      if (c.k == Val::Int) {
        set(s, &x, get(s, (c.a & 1) ? x.getTrueValue() : x.getFalseValue()));
        advance(s);
        return;
      }
      s.nfork++;
      State n = s;
      if (c.k == Val::Sym) {
        assumeEq(n, c, I(0), true);
        assumeEq(s, c, I(0), false);
      }
      set(n, &x, get(n, x.getFalseValue()));
      advance(n);
      work.push_back(std::move(n));
      set(s, &x, get(s, x.getTrueValue()));
      advance(s);
      return;
    }
    case Instruction::ExtractValue: {
      auto &x = cast<ExtractValueInst>(ins);
      Val v = get(s, x.getAggregateOperand());
      for (auto i : x.indices())
        v = v.k == Val::Agg && i < v.g->size() ? (*v.g)[i] : U;
      set(s, &x, norm(s, v));
      advance(s);
      return;
    }
    case Instruction::InsertValue: {
      auto &x = cast<InsertValueInst>(ins);
      Val v = get(s, x.getAggregateOperand());
      if (v.k != Val::Agg) {
        unsigned n = x.getType()->isStructTy() ? x.getType()->getStructNumElements() : x.getType()->getArrayNumElements();
        v = AGG(vector<Val>(n));
      }
      auto g = std::make_shared<vector<Val>>(*v.g);
      if (x.getNumIndices() == 1)
        (*g)[x.getIndices()[0]] = get(s, x.getInsertedValueOperand());
      v.g = g;
      set(s, &x, v);
      advance(s);
      return;
    }
    case Instruction::Fence: {
      auto o = cast<FenceInst>(ins).getOrdering();
      int t = hbTid(s);
      if (isAcq(o))
        s.vc[t].join(s.pend[t]);
      if (isRel(o)) {
        s.relf[t] = s.vc[t];
        s.vc[t].c[t]++;
      }
    }
      emit(s, "atomic", {}, {"fence", ord(cast<FenceInst>(ins).getOrdering())}, false);
      advance(s);
      return;
    case Instruction::AtomicCmpXchg: {
      auto &x = cast<AtomicCmpXchgInst>(ins);
      Val p = get(s, x.getPointerOperand());
      Val e = get(s, x.getCompareOperand()), nv = get(s, x.getNewValOperand());
      int64_t sz = sizeOf(x.getCompareOperand()->getType());
      if (!access(s, p, sz, "cmpxchg"))
        return;
      bool rc = refcountAtomic(s);
      syncPoint(s, rc ? 8 : 2);
      bool shared = obj(s, p.a).shared && !rc;
      Val cur = shared ? S(newSym("atomic")) : loadScalar(s, p, sz, true);
      int eq = shared ? -1 : evalEq(s, cur, e);
      auto fin = [&](State &n, bool ok, const Val &old) {
        auto o = ok ? x.getSuccessOrdering() : x.getFailureOrdering();
        hbAccess(n, p, sz, ok, true, "atomic compare-exchange");
        hbAcquire(n, p, sz, isAcq(o));
        if (ok)
          hbRelease(n, p, sz, isRel(o), true);
        if (ok)
          storeScalar(n, p, sz, nv);
        if (!rc)
          emit(n, "atomic", {p, old, nv, e, I(ok)}, {"cas", ok ? ord(x.getSuccessOrdering()) : ord(x.getFailureOrdering())}, ok);
        set(n, &x, AGG({old, I(ok)}));
        advance(n);
      };
      if (eq != 1 || (x.isWeak() && !rc)) { // failure possible (a spurious one in shared_ptr's own loop is of no consequence)
        if (eq == 1) {             // spurious failure of a weak CAS
          s.nfork++;
      State n = s;
          fin(n, false, cur);
          work.push_back(std::move(n));
        } else if (eq == 0) {
          fin(s, false, cur);
          return;
        } else {
          s.nfork++;
      State n = s;
          if (!x.isWeak())
            assumeEq(n, cur, e, false);
          fin(n, false, norm(n, cur));
          work.push_back(std::move(n));
        }
      }
      if (eq != 1)
        assumeEq(s, cur, e, true);
      fin(s, true, norm(s, e));
      return;
    }
    case Instruction::AtomicRMW: {
      auto &x = cast<AtomicRMWInst>(ins);
      Val p = get(s, x.getPointerOperand());
      Val v = get(s, x.getValOperand());
      int64_t sz = sizeOf(x.getValOperand()->getType());
      if (!access(s, p, sz, "rmw"))
        return;
      bool rc = refcountAtomic(s);
      syncPoint(s, rc ? 8 : 2);
      Val old = (obj(s, p.a).shared && !rc) ? S(newSym("atomic")) : loadScalar(s, p, sz, true);
      Val nv;
      const char *opn = "rmw";
      switch (x.getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; opn = "xchg"; break;
      case AtomicRMWInst::Add: nv = arith(s, Instruction::Add, old, v, sz * 8); opn = "add"; break;
      case AtomicRMWInst::Sub: nv = arith(s, Instruction::Sub, old, v, sz * 8); opn = "sub"; break;
      case AtomicRMWInst::And: nv = arith(s, Instruction::And, old, v, sz * 8); opn = "and"; break;
      case AtomicRMWInst::Or: nv = arith(s, Instruction::Or, old, v, sz * 8); opn = "or"; break;
      case AtomicRMWInst::Xor: nv = arith(s, Instruction::Xor, old, v, sz * 8); opn = "xor"; break;
      default: nv = S(newSym("rmw")); break;
      }
      hbAccess(s, p, sz, true, true, "atomic update");
      hbAcquire(s, p, sz, isAcq(x.getOrdering()));
      hbRelease(s, p, sz, isRel(x.getOrdering()), true);
      storeScalar(s, p, sz, nv);
      if (!rc)
        emit(s, "atomic", {p, old, nv, v}, {opn, ord(x.getOrdering())});
      set(s, &x, old);
      advance(s);
      return;
    }
    case Instruction::Ret: {
      auto &x = cast<ReturnInst>(ins);
      doReturn(s, x.getReturnValue() ? get(s, x.getReturnValue()) : U);
      return;
    }
    case Instruction::Unreachable:
      emit(s, "err", {}, {"unreachable"});
      finish(s, "err");
      return;
    case Instruction::Resume: {
      Val v = get(s, ins.getOperand(0));
      if (v.k == Val::Agg && (*v.g)[0].k == Val::Ptr) {
        int exc = (*v.g)[0].a;
        // leave this frame
        bool boundary = s.fr.back().boundary;
        int act = s.fr.back().act;
        popFrame(s);
        if (boundary) {
          envThrow(s, exc, act);
          return;
        }
        if (s.fr.empty()) {
          emit(s, "escape", {P(exc, 0)}, {excType(s, exc)});
          finish(s, "throw");
          return;
        }
        doThrow(s, exc);
        return;
      }
      emit(s, "err", {}, {"bad-resume"});
      finish(s, "err");
      return;
    }
    case Instruction::LandingPad: {
      auto &x = cast<LandingPadInst>(ins);
      int sel = 0;
      string t = excType(s, s.curExc);
      for (unsigned i = 0; i < x.getNumClauses(); ++i) {
        if (!x.isCatch(i))
          continue;
        Val c = constant(s, x.getClause(i));
        if (c.k == Val::Int) {
          sel = typeId("");
          break;
        }
        if (c.k == Val::Ptr && excMatch(t, obj(s, c.a).name)) {
          sel = typeId(obj(s, c.a).name);
          break;
        }
      }
      if (!sel && !x.isCleanup()) {
        int exc = s.curExc;
        bool boundary = s.fr.back().boundary;
        int act = s.fr.back().act;
        popFrame(s);
        if (boundary) {
          envThrow(s, exc, act);
          return;
        }
        if (s.fr.empty()) {
          emit(s, "escape", {P(exc, 0)}, {excType(s, exc)});
          finish(s, "throw");
          return;
        }
        doThrow(s, exc);
        return;
      }
      set(s, &x, AGG({P(s.curExc, 0), I(sel)}));
      advance(s);
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
      call(s, cast<CallBase>(ins));
      return;
    default:
      if (ins.isBinaryOp()) {
        unsigned op = ins.getOpcode();
        if (ins.getType()->isFloatingPointTy()) {
          set(s, &ins, S(newSym("fp")));
        } else
          set(s, &ins, arith(s, op, get(s, ins.getOperand(0)), get(s, ins.getOperand(1)), bitsOf(ins.getType())));
        advance(s);
        return;
      }
      emit(s, "err", {}, {"unsupported-instruction", ins.getOpcodeName()});
      finish(s, "err");
      return;
    }
  }

  void call(State &s, const CallBase &c) {
    if (auto *ii = dyn_cast<IntrinsicInst>(&c)) {
      intrinsic(s, *ii);
      return;
    }
    Val cv = get(s, c.getCalledOperand());
    if (cv.k != Val::Fn) {
      if (isa<InlineAsm>(c.getCalledOperand())) {
        finishCall(s, c, S(newSym("asm")));
        return;
      }
      emit(s, "err", {cv}, {cv.k == Val::Int ? "null-call" : "unknown-call"});
      finish(s, "err");
      return;
    }
    const Function *fn = (const Function *)cv.a;
    vector<Val> args;
    for (unsigned i = 0; i < c.arg_size(); ++i)
      args.push_back(get(s, c.getArgOperand(i)));
    if (auto *m = modelFor(fn)) {
      (*m)(s, c, args);
      return;
    }
    callSites.insert({fn, &c});
    if (fn->isDeclaration()) {
      unknownExt.insert(dem(fn));
      emit(s, "extern", {}, {dem(fn)}, false);
      Val r = U;
      if (!c.getType()->isVoidTy())
        r = S(newSym("ext:" + dem(fn)));
      finishCall(s, c, r);
      return;
    }
    for (unsigned i = 0; i < c.arg_size(); ++i)
      if (c.isByValArgument(i) && args[i].k == Val::Ptr) {
        int64_t sz = DL->getTypeAllocSize(c.getParamByValType(i)).getFixedValue();
        int id = newObj(s, OStack, sz);
        copyMem(s, P(id, 0), args[i], sz);
        args[i] = P(id, 0);
      }
    pushFrame(s, fn, args, false, s.fr.back().tid);
  }

  void intrinsic(State &s, const IntrinsicInst &c) {
    switch (c.getIntrinsicID()) {
    case Intrinsic::lifetime_start: {
      Val p = get(s, c.getArgOperand(1));
      if (p.k == Val::Ptr) {
        Obj &o = wobj(s, p.a);
        o.dead = false;
        o.cells.clear();
      }
      advance(s);
      return;
    }
    case Intrinsic::lifetime_end: {
      Val p = get(s, c.getArgOperand(1));
      if (p.k == Val::Ptr) {
        hbEnd(s, p.a, "end of scope");
        Obj &o = wobj(s, p.a);
        o.dead = true;
        o.cells.clear();
      }
      advance(s);
      return;
    }
    case Intrinsic::memcpy:
    case Intrinsic::memmove: {
      Val d = get(s, c.getArgOperand(0)), src = get(s, c.getArgOperand(1)), n = get(s, c.getArgOperand(2));
      if (n.k == Val::Int && n.a == 0) {
        advance(s);
        return;
      }
      if (n.k != Val::Int) {
        emit(s, "err", {n}, {"unknown-memcpy-size"});
        finish(s, "err");
        return;
      }
      if (!access(s, d, n.a, "memcpy-dst") || !access(s, src, n.a, "memcpy-src"))
        return;
      hbAccess(s, src, n.a, false, false, "read");
      hbAccess(s, d, n.a, true, false, "write");
      copyMem(s, d, src, n.a);
      watchEv(s, "store", d, U);
      advance(s);
      return;
    }
    case Intrinsic::memset: {
      Val d = get(s, c.getArgOperand(0)), v = get(s, c.getArgOperand(1)), n = get(s, c.getArgOperand(2));
      if (n.k == Val::Int && n.a == 0) {
        advance(s);
        return;
      }
      if (n.k != Val::Int) {
        emit(s, "err", {n}, {"unknown-memset-size"});
        finish(s, "err");
        return;
      }
      if (!access(s, d, n.a, "memset"))
        return;
      hbAccess(s, d, n.a, true, false, "write");
      Obj &o = wobj(s, d.a);
      eraseRange(o, d.b, n.a);
      if (v.k == Val::Int && v.a == 0 && d.b == 0 && (int64_t)n.a == o.size)
        o.zero = true;
      else {
        uint64_t i = 0;
        uint64_t b = v.k == Val::Int ? (v.a & 0xff) * 0x0101010101010101ull : 0;
        for (; i + 8 <= n.a; i += 8)
          o.cells[d.b + i] = Cell{8, v.k == Val::Int ? I(b) : U};
        for (; i < n.a; ++i)
          o.cells[d.b + i] = Cell{1, v.k == Val::Int ? I(b & 0xff) : U};
      }
      advance(s);
      return;
    }
    case Intrinsic::eh_typeid_for: {
      Val p = get(s, c.getArgOperand(0));
      set(s, &c, I(typeId(p.k == Val::Ptr ? obj(s, p.a).name : "")));
      advance(s);
      return;
    }
    case Intrinsic::threadlocal_address: {
      Val p = get(s, c.getArgOperand(0));
      if (p.k == Val::Ptr) {
        auto key = std::make_pair((int)p.a, s.fr.back().tid);
        auto it = s.tls.find(key);
        if (it == s.tls.end()) {
          int id = newObj(s, OGlobal, obj(s, p.a).size);
          Obj &o = wobj(s, id);
          o.name = obj(s, p.a).name;
          o.cells = obj(s, p.a).cells;
          o.zero = obj(s, p.a).zero;
          it = s.tls.emplace(key, id).first;
        }
        p.a = it->second;
      }
      set(s, &c, p);
      advance(s);
      return;
    }
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
      set(s, &c, get(s, c.getArgOperand(0)));
      advance(s);
      return;
    case Intrinsic::assume: {
      advance(s);
      return;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      Val a = get(s, c.getArgOperand(0)), b = get(s, c.getArgOperand(1));
      unsigned bits = bitsOf(c.getType());
      CmpInst::Predicate p = c.getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : c.getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : c.getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      int r = evalCmp(s, p, a, b, bits);
      set(s, &c, r < 0 ? S(newSym("minmax")) : r ? a : b);
      advance(s);
      return;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      Val a = get(s, c.getArgOperand(0)), b = get(s, c.getArgOperand(1));
      unsigned op = Instruction::Mul;
      if (c.getIntrinsicID() == Intrinsic::uadd_with_overflow || c.getIntrinsicID() == Intrinsic::sadd_with_overflow) op = Instruction::Add;
      if (c.getIntrinsicID() == Intrinsic::usub_with_overflow || c.getIntrinsicID() == Intrinsic::ssub_with_overflow) op = Instruction::Sub;
      set(s, &c, AGG({arith(s, op, a, b, bitsOf(c.getArgOperand(0)->getType())), I(0)}));
      advance(s);
      return;
    }
    case Intrinsic::trap:
      emit(s, "terminate", {}, {"", "trap"});
      finish(s, "terminate");
      return;
    case Intrinsic::is_constant:
      set(s, &c, I(0));
      advance(s);
      return;
    case Intrinsic::objectsize:
      set(s, &c, I(~0ull));
      advance(s);
      return;
    case Intrinsic::ctlz: {
      Val a = get(s, c.getArgOperand(0));
      unsigned bits = bitsOf(c.getType());
      if (a.k == Val::Int) {
        unsigned n = 0;
        for (int i = bits - 1; i >= 0 && !((a.a >> i) & 1); --i)
          ++n;
        set(s, &c, I(n));
      } else
        set(s, &c, S(newSym("ctlz")));
      advance(s);
      return;
    }
    default:
      if (!c.getType()->isVoidTy())
        set(s, &c, S(newSym("intrinsic")));
      advance(s);
      return;
    }
  }

  // ------------------------------------------------------------ driver
  string show(const Val &v) {
    switch (v.k) {
    case Val::Undef: return "undef";
    case Val::Int: return std::to_string((int64_t)v.a);
    case Val::Ptr: return "o" + std::to_string(v.a) + (v.b ? "+" + std::to_string(v.b) : "");
    case Val::Fn: return "&" + ((const Function *)v.a)->getName().str();
    case Val::Sym: return "s" + std::to_string(v.a) + (v.b ? "+" + std::to_string(v.b) : "");
    case Val::Agg: return "agg";
    }
    return "?";
  }

  void analyse(const Function *entry) {
    State s;
    initGlobals(s);
    pushFrame(s, entry, {}, false, 1);
    work.push_back(std::move(s));
    while (!work.empty()) {
      State st = std::move(work.back());
      work.pop_back();
      ++statStates;
      while (!st.done)
        step(st);
      if (st.out == "infeasible" || st.out == "covered" || st.out == "subsumed") {
        subs[st.out]++;
        continue;
      }
      // resolve symbols in the events with the final facts
      PathOut po;
      po.out = st.out;
      po.ev = st.ev;
      vector<shared_ptr<Ev>> chain;
      for (auto e = st.ev; e; e = e->prev)
        chain.push_back(e);
      results.push_back(po);
      emitPath(st, chain);
      if (results.size() >= maxPaths) {
        truncated = true;
        break;
      }
    }
  }
  map<string, int> subs;
  string outBuf;
  void jstr(string &o, const string &x) {
    o += '"';
    for (char ch : x) {
      if (ch == '"' || ch == '\\')
        o += '\\';
      if ((unsigned char)ch < 32)
        o += ' ';
      else
        o += ch;
    }
    o += '"';
  }
  void emitPath(State &st, vector<shared_ptr<Ev>> &chain) {
    string o = "{\"out\":";
    jstr(o, st.out);
    o += ",\"ev\":[";
    bool first = true;
    for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
      auto &e = **it;
      if (!first)
        o += ',';
      first = false;
      o += "[" + std::to_string(e.kind) + "," + std::to_string(e.tid) + "," + std::to_string(e.loc) + "," + std::to_string(e.fn) + ",[";
      bool f2 = true;
      for (auto &v : e.args) {
        if (!f2)
          o += ',';
        f2 = false;
        Val n = norm(st, v);
        if (n.k == Val::Int)
          o += std::to_string((int64_t)n.a);
        else
          jstr(o, show(n));
      }
      o += "],[";
      f2 = true;
      for (int v : e.sargs) {
        if (!f2)
          o += ',';
        f2 = false;
        o += std::to_string(v);
      }
      o += "]]";
    }
    o += "],\"leaks\":[";
    first = true;
    if (st.out == "return" || st.out == "throw")
      for (auto &ob : st.objs)
        if (ob->kind == OHeap && !ob->dead) {
          if (!first)
            o += ',';
          first = false;
          o += "[\"o" + std::to_string(ob->id) + "\"," + std::to_string(ob->allocLoc) + "," + std::to_string(ob->size) + "]";
        }
    o += "]}";
    printf("%s\n", o.c_str());
  }
};

int main(int argc, char **argv) {
  if (argc < 3) {
    fprintf(stderr, "usage: tsa module.bc [--repo DIR] [--list] entry...\n");
    return 2;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) {
    err.print("tsa", errs());
    return 2;
  }
  M = mod.get();
  DL = &mod->getDataLayout();
  vector<string> entries;
  for (int i = 2; i < argc; ++i) {
    string a = argv[i];
    if (a == "--repo")
      repoRoot = string(argv[++i]) + "/";
    else if (a == "--max-paths")
      maxPaths = std::stoull(argv[++i]);
    else if (a == "--list") {
      for (auto &f : *M)
        if (f.getName().starts_with("e_") && !f.isDeclaration())
          printf("%s\n", f.getName().str().c_str());
      return 0;
    } else
      entries.push_back(a);
  }
  for (auto &e : entries) {
    auto *fn = M->getFunction(e);
    if (!fn || fn->isDeclaration()) {
      fprintf(stderr, "tsa: no entry %s\n", e.c_str());
      return 2;
    }
    statSteps = statStates = statMaxDepth = 0;
    symNames.clear();
    fnSeen.clear();
    unknownExt.clear();
    callSites.clear();
    fnInfos.clear();
    auto t0 = std::chrono::steady_clock::now();
    Analyser a;
    a.setupModels();
    printf("ENTRY %s\n", e.c_str());
    a.analyse(fn);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    string o = "END {\"paths\":" + std::to_string(a.results.size()) + ",\"steps\":" + std::to_string(statSteps) +
               ",\"states\":" + std::to_string(statStates) + ",\"functions\":" + std::to_string(fnSeen.size()) +
               ",\"depth\":" + std::to_string(statMaxDepth) + ",\"callsites\":" + std::to_string(callSites.size()) +
               ",\"truncated\":" + (a.truncated ? "true" : "false") + ",\"wall\":" + std::to_string(dt);
    for (auto &x : a.subs)
      o += ",\"" + x.first + "\":" + std::to_string(x.second);
    o += ",\"repo_functions\":[";
    bool first = true;
    for (auto *f : fnSeen)
      if (auto *sp = f->getSubprogram()) {
        string file = sp->getFile()->getFilename().str();
        if (file[0] != '/')
          file = sp->getFile()->getDirectory().str() + "/" + file;
        if (file.find("portable_concurrency") != string::npos && file.compare(0, repoRoot.size(), repoRoot) == 0) {
          if (!first)
            o += ',';
          first = false;
          a.jstr(o, f->getName().str());
        }
      }
    o += "],\"unknown\":[";
    first = true;
    for (auto &u : unknownExt) {
      if (!first)
        o += ',';
      first = false;
      a.jstr(o, u);
    }
    o += "]}";
    printf("%s\n", o.c_str());
  }
  string o = "STRINGS [";
  Analyser a;
  for (size_t i = 0; i < strs.size(); ++i) {
    if (i)
      o += ',';
    a.jstr(o, strs[i]);
  }
  printf("%s]\n", o.c_str());
  return 0;
}
