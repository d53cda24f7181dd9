// symx: symbolic executor for LLVM 18 IR. Ints are mathematical integers with the
// two's complement wrap-around made explicit wherever it may occur; doubles are reals.
#include "solver.hpp"
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
using namespace llvm;

typedef unsigned __int128 u128;

struct Val {
  enum K : uint8_t { UNDEF, CONC, EXPR, AGG } k = UNDEF;
  uint64_t b = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> a;
  static Val C(uint64_t x) { Val v; v.k = CONC; v.b = x; return v; }
  static Val X(E e) { Val v; v.k = EXPR; v.e = e; return v; }
  static Val A(std::vector<Val> &&x) { Val v; v.k = AGG; v.a = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
};

struct Cell { Val v; uint32_t len; };
struct Obj {
  uint64_t base, size;
  int kind; // 0 global 1 stack 2 heap
  bool freed = false;
  int bg = -1; // background byte
  std::string name;
  std::map<uint64_t, Cell> cells;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
  Function *f;
  DenseMap<const Value *, unsigned> idx;
  unsigned n = 0;
};
struct Frame {
  FnInfo *fi;
  BasicBlock *bb;
  BasicBlock *prev = nullptr;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> extra; // variadic arguments
  CallBase *callsite = nullptr;
};
struct Fiber { std::vector<Frame> st; bool waiting = false, done = false; };
struct State {
  std::vector<Fiber> fibers; // 0 = main
  int cur = 0;
  bool ranks = false;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> pc;
  std::vector<std::pair<std::string, E>> obs;
  uint64_t nextAddr;
  long steps = 0, quiet = 0; // quiet: branches since the last store or call
  int depth = 0;
  Frame &fr() { return fibers[cur].st.back(); }
};

static LLVMContext ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<uint64_t, ObjP> roMem;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
// Writable globals and function-local statics of the library: every rank (process) has its own copy.
static std::set<const GlobalValue *> rankGlobals;
static int gRank = 0; // 0: the common program, r: rank r - 1
static const uint64_t RANK_STRIDE = 0x1000000000ULL;
static std::unordered_map<uint64_t, Function *> fnAt;
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fninfo;
static std::deque<State *> work;
static std::unordered_set<const BasicBlock *> coveredBB;
static std::set<std::string> usedFns, extNoop, reached, cuts;
static std::map<std::string, long> assertsByLabel, simplified, reachCount;
static std::map<std::string, std::string> infoKV;
static std::map<std::string, int> cfgKV;
static long paths = 0, forks = 0, totalSteps = 0, assertN = 0, infeasible = 0, validated = 0;
static long maxPaths = 200000; static double maxTime = 800;
static int maxViol = 16;
static std::string outFile, tracePfx;
static int nTraces = 0;
static bool strictDiv = false;
static std::chrono::steady_clock::time_point T0;
static std::set<std::string> inconclusive;
struct Viol { std::string label, detail, stack; std::map<std::string, mpq_class> model; };
static std::vector<Viol> viols;
static std::map<std::string, int> violLabels;
struct PathEnd { std::string why; };
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static std::string demangle(const std::string &s) { return llvm::demangle(s); }
[[noreturn]] static void die(const std::string &m) {
  fprintf(stderr, "symx: FATAL %s\n", m.c_str());
  throw std::runtime_error(m);
}
static std::string stackOf(State &s) {
  std::string r;
  if (s.fibers.empty()) return r;
  auto &st = s.fibers[s.cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && i > (int)st.size() - 8; i--) {
    std::string d = demangle(st[i].fi->f->getName().str());
    if (d.size() > 160) d = d.substr(0, 160);
    r += d + " < ";
  }
  return r;
}

// ---------------------------------------------------------------- values
static uint64_t maskW(uint64_t x, unsigned w) { return w >= 64 ? x : x & ((1ULL << w) - 1); }
static int64_t sextW(uint64_t x, unsigned w) { if (w >= 64) return (int64_t)x; uint64_t m = 1ULL << (w - 1); x = maskW(x, w); return (int64_t)((x ^ m) - m); }
static mpz_class mpzS(int64_t v) { mpz_class z; mpz_set_si(z.get_mpz_t(), v); return z; }
static mpz_class pow2(unsigned w) { mpz_class z = 1; z <<= w; return z; }
static std::unordered_map<uint64_t, E> dblMemo;
static E snapDouble(double d) {
  if (std::isnan(d) || std::isinf(d)) { return mkVar(SR, std::isnan(d) ? "nan" : d > 0 ? "inf" : "minf"); }
  uint64_t bits; memcpy(&bits, &d, 8);
  auto it = dblMemo.find(bits);
  if (it != dblMemo.end()) return it->second;
  mpq_class exact(d);
  mpq_class best = exact;
  if (d != 0 && std::fabs(d) < 1e300) {
    // simplest continued fraction convergent that rounds to d
    mpq_class x = abs(exact);
    mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    double ad = std::fabs(d);
    for (int i = 0; i < 60; i++) {
      mpz_class a; mpz_fdiv_q(a.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
      mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      mpq_class c(p1, q1); c.canonicalize();
      // correctly rounded conversion: compare with neighbours
      double lo = std::nextafter(ad, 0), hi = std::nextafter(ad, INFINITY);
      mpq_class ml = (mpq_class(lo) + mpq_class(ad)) / 2, mh = (mpq_class(ad) + mpq_class(hi)) / 2;
      if (c > ml && c < mh) {
        if (mpz_sizeinbase(p1.get_mpz_t(), 2) + mpz_sizeinbase(q1.get_mpz_t(), 2) <= 40) best = d < 0 ? mpq_class(-c) : c;
        break;
      }
      mpq_class f = x - mpq_class(a);
      if (f == 0) break;
      x = 1 / f;
    }
    if (best == exact) {
      // short decimal literals such as 1e-15
      char buf[40]; snprintf(buf, sizeof buf, "%.6e", ad);
      if (strtod(buf, nullptr) == ad) {
        std::string s(buf); size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1);
        std::string dg = s.substr(0, 1) + s.substr(2, e - 2);
        mpq_class q; q.set_str(dg, 10); ex -= (int)dg.size() - 1;
        mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, std::abs(ex));
        q = ex < 0 ? mpq_class(q / mpq_class(t)) : mpq_class(q * mpq_class(t));
        best = d < 0 ? mpq_class(-q) : q;
      }
    }
  }
  return dblMemo[bits] = mkReal(best);
}
static unsigned widthOf(Type *t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
static E toE(const Val &v, unsigned w) {
  if (v.k == Val::EXPR) return v.e;
  if (v.k == Val::CONC) return w == 1 ? mkBool(v.b & 1) : mkInt(mpzS(sextW(v.b, w)));
  die("toE on undef/agg");
}
static Val fromE(E e, unsigned w) {
  if (e->op == CONST && e->s == SB) return Val::C(e->q == 1);
  if (e->op == CONST && e->s == SI) {
    mpz_class z = e->q.get_num(), m;
    mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), w);
    uint64_t r = 0; mpz_export(&r, nullptr, -1, 8, 0, 0, m.get_mpz_t());
    return Val::C(r);
  }
  return Val::X(e);
}
static E toR(const Val &v) {
  if (v.k == Val::EXPR) {
    if (v.e->s != SR) die("toR: not real");
    return v.e;
  }
  if (v.k == Val::CONC) { double d; memcpy(&d, &v.b, 8); return snapDouble(d); }
  die("toR undef");
}

// ---------------------------------------------------------------- solver glue
static std::vector<E> sliceFor(const std::vector<E> &pc, E goal) {
  // constraints transitively sharing variables with goal
  std::unordered_set<E> vs(varsOf(goal).begin(), varsOf(goal).end());
  std::vector<bool> in(pc.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i]) {
        auto &v = varsOf(pc[i]);
        bool hit = false;
        for (auto x : v) if (vs.count(x)) { hit = true; break; }
        if (hit) { in[i] = true; ch = true; for (auto x : v) vs.insert(x); }
      }
  }
  std::vector<E> r;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
static Res feasible(State &s, E c, bool portfolio = false) {
  if (isTrue(c)) return SAT;
  if (isFalse(c)) return UNSAT;
  for (auto x : s.pc) { if (x == c) return SAT; }
  E nc = mkNot(c);
  for (auto x : s.pc) { if (x == nc) return UNSAT; }
  auto v = sliceFor(s.pc, c);
  v.push_back(c);
  Res r = check(v, nullptr, quickMs, portfolio);
  return r;
}
static void addPC(State &s, E c) {
  if (isTrue(c)) return;
  if (c->op == AND) { for (auto x : c->ch) addPC(s, x); return; }
  for (auto x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}
static E wrapTo(State *s, E e, unsigned w) {
  if (e->s == SB) die("wrapTo bool");
  mpz_class lo = -pow2(w - 1), hi = pow2(w - 1) - 1, m = pow2(w);
  auto inR = [&](E x) { return x->iv.hl && x->iv.hh && x->iv.lo >= lo && x->iv.hi <= hi; };
  if (inR(e)) return e;
  if (e->op == CONST) {
    mpz_class z = e->q.get_num(), r;
    mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), w);
    if (r > hi) r -= m;
    return mkInt(r);
  }
  if (e->op == LIN) {
    E r = mkInt(e->q.get_num() % m);
    for (auto &t : e->lin) {
      mpz_class k = t.second.get_num();
      if (k % m == 0) continue;
      r = mkAdd(r, mkScale(t.first, t.second));
    }
    if (r != e) return wrapTo(s, r, w);
  }
  if (e->op == ITE) return mkIte(e->ch[0], wrapTo(s, e->ch[1], w), wrapTo(s, e->ch[2], w));
  if (e->op == LIN && e->lin.size() == 1 && e->lin[0].first->op == ITE) {
    E it = e->lin[0].first; mpq_class k = e->lin[0].second; E c0 = mkInt(e->q.get_num());
    return mkIte(it->ch[0], wrapTo(s, mkAdd(mkScale(it->ch[1], k), c0), w), wrapTo(s, mkAdd(mkScale(it->ch[2], k), c0), w));
  }
  if (s) {
    E bad = mkOr(mkLt(e, mkInt(lo)), mkLt(mkInt(hi), e));
    Res r = feasible(*s, bad);
    if (r == UNSAT) return e;
  }
  return mkSub(e, mkScale(mkFloorDiv(mkAdd(e, mkInt(pow2(w - 1))), m), mpq_class(m)));
}
static E unsignedOf(E e, unsigned w) {
  if (isNonneg(e)) return e;
  return mkIte(mkLt(e, mkInt(0)), mkAdd(e, mkInt(pow2(w))), e);
}

// Two 32-bit integers passed in one 64-bit register: what the halves are.
// zextSrc[e] = v: e is v zero-extended from 32 bits; shlSrc[e] = v: e = 2^32 v;
// packed[e] = (hi, lo). All values as signed integers.
static std::unordered_map<E, E> zextSrc, shlSrc;
static std::unordered_map<E, std::pair<E, E>> packed;
static E unzext(E hi) { E u = unsignedOf(hi, 32); if (!isC(u)) zextSrc[u] = hi; return u; }

// ---------------------------------------------------------------- memory
static ObjP *findObj(State &s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it != s.mem.begin()) { --it; if (addr < it->second->base + std::max<uint64_t>(it->second->size, 1)) return &it->second; }
  auto jt = roMem.upper_bound(addr);
  if (jt != roMem.begin()) { --jt; if (addr < jt->second->base + std::max<uint64_t>(jt->second->size, 1)) return &jt->second; }
  return nullptr;
}
static uint64_t allocObj(State &s, uint64_t size, int kind, const std::string &name) {
  auto o = std::make_shared<Obj>();
  o->base = s.nextAddr; o->size = size; o->kind = kind; o->name = name;
  s.nextAddr += ((size + 15) & ~15ULL) + 32;
  s.mem[o->base] = o;
  return o->base;
}
struct Violation { std::string label, detail; };
static Obj &objFor(State &s, uint64_t addr, uint64_t n, bool write) {
  ObjP *p = findObj(s, addr);
  if (!p) throw Violation{"memory", "access of " + std::to_string(n) + " bytes at unmapped address " + std::to_string(addr)};
  if ((*p)->freed) throw Violation{"memory", "use after free of " + (*p)->name};
  if (addr + n > (*p)->base + (*p)->size)
    throw Violation{"memory", "out-of-bounds access of " + (*p)->name + " size " + std::to_string((*p)->size) + " offset " + std::to_string(addr - (*p)->base) + " len " + std::to_string(n)};
  if (write && p->use_count() > 1) *p = std::make_shared<Obj>(**p);
  return **p;
}
static Val bytesOfCell(const Cell &c, uint64_t off, uint64_t n) { // sub-range of a cell
  if (c.v.k == Val::UNDEF) return Val();
  if (c.v.k == Val::CONC) return Val::C(maskW(c.v.b >> (8 * off), 8 * n));
  if (c.v.k == Val::EXPR) {
    E e = c.v.e;
    if (e->s == SR) {
      if (off == 0 && n == 8) return c.v;
      if (e->op == CONST) { double d = e->q.get_d(); uint64_t b; memcpy(&b, &d, 8); return Val::C(maskW(b >> (8 * off), 8 * n)); }
      die("partial access of a symbolic real");
    }
    if (e->s == SB) e = mkIte(e, mkInt(1), mkInt(0));
    if (c.len == 8 && n == 4 && (off == 0 || off == 4)) {
      auto p = packed.find(e);
      if (p != packed.end()) return fromE(off ? p->second.first : p->second.second, 32);
    }
    E r = mkFloorDiv(e, pow2(8 * off));
    return fromE(wrapTo(nullptr, r, 8 * n), 8 * n);
  }
  die("bytesOfCell agg");
}
// split cells so that no cell straddles off
static void splitAt(Obj &o, uint64_t off) {
  auto it = o.cells.upper_bound(off);
  if (it == o.cells.begin()) return;
  --it;
  uint64_t st = it->first;
  if (st == off || st + it->second.len <= off) return;
  Cell c = it->second;
  Cell a{bytesOfCell(c, 0, off - st), (uint32_t)(off - st)}, b{bytesOfCell(c, off - st, st + c.len - off), (uint32_t)(st + c.len - off)};
  o.cells.erase(it);
  o.cells[st] = a; o.cells[off] = b;
}
static void rawStore(Obj &o, uint64_t off, const Val &v, uint32_t len) {
  auto it = o.cells.find(off);
  if (it != o.cells.end() && it->second.len == len) { it->second.v = v; return; }
  splitAt(o, off); splitAt(o, off + len);
  auto a = o.cells.lower_bound(off), b = o.cells.lower_bound(off + len);
  o.cells.erase(a, b);
  o.cells[off] = Cell{v, len};
}
static Val rawLoad(const Obj &o, uint64_t off, uint32_t len) {
  auto it = o.cells.find(off);
  if (it != o.cells.end() && it->second.len == len) return it->second.v;
  if (len == 8 && it != o.cells.end() && it->second.len == 4) {
    auto jt = o.cells.find(off + 4);
    if (jt != o.cells.end() && jt->second.len == 4) {
      auto part = [](const Val &v) -> E { return v.k == Val::CONC ? mkInt(mpzS(sextW(v.b, 32))) : v.k == Val::EXPR && v.e->s == SI ? v.e : nullptr; };
      E l = part(it->second.v), h = part(jt->second.v);
      if (l && h && !(isC(l) && isC(h))) {
        E r = mkAdd(mkScale(h, mpq_class(pow2(32))), isC(l) ? mkInt(l->q < 0 ? mpz_class(l->q.get_num() + pow2(32)) : l->q.get_num()) : unzext(l));
        packed[r] = {h, l};
        return fromE(r, 64);
      }
    }
  }
  // assemble
  E acc = nullptr; uint64_t cacc = 0; bool conc = true; bool undef = false;
  uint64_t p = off;
  while (p < off + len) {
    auto jt = o.cells.upper_bound(p);
    bool have = false;
    uint64_t st = 0;
    if (jt != o.cells.begin()) { auto k = std::prev(jt); st = k->first; if (p < st + k->second.len) { have = true; jt = k; } }
    uint64_t n; Val v;
    if (have) { n = std::min<uint64_t>(st + jt->second.len, off + len) - p; v = bytesOfCell(jt->second, p - st, n); }
    else {
      uint64_t nx = jt == o.cells.end() ? off + len : std::min<uint64_t>(jt->first, off + len);
      n = nx - p;
      if (o.bg < 0) v = Val();
      else { uint64_t x = 0; for (uint64_t i = 0; i < n && i < 8; i++) x |= (uint64_t)o.bg << (8 * i); v = Val::C(x); }
    }
    if (v.k == Val::UNDEF) undef = true;
    else if (v.k == Val::CONC && conc) cacc |= v.b << (8 * (p - off));
    else if (v.k == Val::EXPR && v.e->s == SR) { if (n == len) return v; undef = true; }
    else {
      if (conc) { acc = mkInt(mpzS(0)); mpz_class z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &cacc); acc = mkInt(z); conc = false; }
      E pe = v.k == Val::CONC ? mkInt(mpzS((int64_t)maskW(v.b, 8 * n))) : v.e;
      if (pe->s == SB) pe = mkIte(pe, mkInt(1), mkInt(0));
      bool last = p + n == off + len;
      if (v.k == Val::CONC) pe = mkInt(last ? mpzS(sextW(v.b, 8 * n)) : mpzS((int64_t)v.b));
      else if (!last) pe = unsignedOf(pe, 8 * n);
      acc = mkAdd(acc, mkScale(pe, mpq_class(pow2(8 * (p - off)))));
    }
    p += n;
  }
  if (undef) return Val();
  if (conc) return Val::C(cacc);
  // if the most significant part was concrete while conc, acc holds unsigned value; normalise
  return fromE(wrapTo(nullptr, acc, 8 * len), 8 * len);
}
static void storeVal(State &s, uint64_t addr, Type *t, const Val &v);
static bool isFP(Type *t) { return t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty(); }
static Val loadVal(State &s, uint64_t addr, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st); std::vector<Val> r;
    for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadVal(s, addr + sl->getElementOffset(i), st->getElementType(i)));
    return Val::A(std::move(r));
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> r; uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(loadVal(s, addr + i * es, at->getElementType()));
    return Val::A(std::move(r));
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> r; uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(loadVal(s, addr + i * es, vt->getElementType()));
    return Val::A(std::move(r));
  }
  uint64_t n = DL->getTypeStoreSize(t);
  Obj &o = objFor(s, addr, n, false);
  Val v = rawLoad(o, addr - o.base, n);
  if (isFP(t)) {
    if (v.k == Val::CONC) {
      if (t->isFloatTy()) { float d; uint32_t b = (uint32_t)v.b; memcpy(&d, &b, 4); return Val::X(snapDouble(d)); }
      if (t->isX86_FP80Ty() && v.b) die("load of a long double from bytes");
      double d; memcpy(&d, &v.b, 8); return Val::X(snapDouble(d));
    }
    if (v.k == Val::EXPR && v.e->s != SR) die("load double from symbolic int");
    return v;
  }
  if (t->isIntegerTy() && v.k == Val::CONC) v.b = maskW(v.b, widthOf(t));
  if (t->isIntegerTy(1)) { if (v.k == Val::EXPR && v.e->s == SI) return fromE(mkNot(mkEq(v.e, mkInt(0))), 1); }
  else if (t->isIntegerTy() && v.k == Val::EXPR && v.e->s == SB) return Val::X(mkIte(v.e, mkInt(1), mkInt(0)));
  return v;
}
static void storeVal(State &s, uint64_t addr, Type *t, const Val &v) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    if (v.k != Val::AGG) return;
    for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, addr + sl->getElementOffset(i), st->getElementType(i), (*v.a)[i]);
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
    if (v.k != Val::AGG) return;
    for (unsigned i = 0; i < v.a->size(); i++) storeVal(s, addr + i * es, et, (*v.a)[i]);
    return;
  }
  uint64_t n = DL->getTypeStoreSize(t);
  Obj &o = objFor(s, addr, n, true);
  rawStore(o, addr - o.base, v, n);
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj &so0 = objFor(s, src, n, false);
  std::vector<std::pair<uint64_t, Cell>> tmp;
  int bg;
  {
    // work on a copy if a straddling split is needed
    Obj *so = &so0;
    Obj cp;
    uint64_t so_off = src - so->base;
    auto strad = [&](uint64_t off) { auto it = so->cells.upper_bound(off); if (it == so->cells.begin()) return false; --it; return it->first != off && it->first + it->second.len > off; };
    if (strad(so_off) || strad(so_off + n)) { cp = *so; splitAt(cp, so_off); splitAt(cp, so_off + n); so = &cp; }
    bg = so->bg;
    for (auto it = so->cells.lower_bound(so_off); it != so->cells.end() && it->first < so_off + n; ++it) tmp.push_back({it->first - so_off, it->second});
  }
  Obj &d = objFor(s, dst, n, true);
  uint64_t doff = dst - d.base;
  splitAt(d, doff); splitAt(d, doff + n);
  d.cells.erase(d.cells.lower_bound(doff), d.cells.lower_bound(doff + n));
  // background
  if (bg >= 0 && d.bg != bg) {
    uint64_t p = 0; size_t i = 0;
    while (p < n) {
      uint64_t e = i < tmp.size() ? tmp[i].first : n;
      while (p < e) { uint64_t l = std::min<uint64_t>(8, e - p); if (((doff + p) & 7) && l == 8) l = 8 - ((doff + p) & 7); if (l > e - p) l = e - p; uint64_t x = 0; for (unsigned k = 0; k < l; k++) x |= (uint64_t)bg << (8 * k); d.cells[doff + p] = Cell{Val::C(x), (uint32_t)l}; p += l; }
      if (i < tmp.size()) { p = tmp[i].first + tmp[i].second.len; i++; }
    }
  } else if (bg < 0 && d.bg >= 0) {
    uint64_t p = 0; size_t i = 0;
    while (p < n) {
      uint64_t e = i < tmp.size() ? tmp[i].first : n;
      if (p < e) d.cells[doff + p] = Cell{Val(), (uint32_t)(e - p)};
      p = e;
      if (i < tmp.size()) { p = tmp[i].first + tmp[i].second.len; i++; }
    }
  }
  for (auto &t : tmp) d.cells[doff + t.first] = t.second;
}
static void setMem(State &s, uint64_t dst, int byte, uint64_t n) {
  if (!n) return;
  Obj &d = objFor(s, dst, n, true);
  uint64_t off = dst - d.base;
  if (off == 0 && n == d.size) { d.cells.clear(); d.bg = byte; return; }
  splitAt(d, off); splitAt(d, off + n);
  d.cells.erase(d.cells.lower_bound(off), d.cells.lower_bound(off + n));
  if (d.bg == byte) return;
  uint64_t p = 0;
  while (p < n) {
    uint64_t l = std::min<uint64_t>(8, n - p);
    if ((off + p) & 7) l = std::min<uint64_t>(l, 8 - ((off + p) & 7));
    uint64_t x = 0; for (unsigned k = 0; k < l; k++) x |= (uint64_t)(byte & 255) << (8 * k);
    d.cells[off + p] = Cell{Val::C(x), (uint32_t)l};
    p += l;
  }
}
static std::string cstr(State &s, uint64_t a) {
  std::string r;
  if (!a) return r;
  for (int i = 0; i < 4096; i++) {
    Obj &o = objFor(s, a + i, 1, false);
    Val v = rawLoad(o, a + i - o.base, 1);
    if (v.k != Val::CONC || !v.b) break;
    r += (char)v.b;
  }
  return r;
}

// ---------------------------------------------------------------- constants
static uint64_t addrOfGlobal(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(al->getAliasee()->stripPointerCasts());
  auto it = gaddr.find(g);
  if (gRank && it != gaddr.end() && rankGlobals.count(g)) return it->second + gRank * RANK_STRIDE;
  if (it == gaddr.end()) die("unknown global " + g->getName().str());
  return it->second;
}
static int64_t gepOffset(const GEPOperator *g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) die("constexpr gep");
  return off.getSExtValue();
}
static Val constVal(const Constant *c);
static uint64_t constInt(const Constant *c) { Val v = constVal(c); if (v.k != Val::CONC) die("const not concrete"); return v.b; }
static Val constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { mpz_class z; SmallString<40> ss; ci->getValue().toStringSigned(ss); z.set_str(std::string(ss.c_str()), 10); return Val::X(mkInt(z)); }
    return Val::C(ci->getZExtValue());
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); bool l;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    return Val::X(snapDouble(f.convertToDouble()));
  }
  if (isa<ConstantPointerNull>(c)) return Val::C(0);
  if (isa<UndefValue>(c)) {
    if (c->getType()->isStructTy() || c->getType()->isArrayTy() || c->getType()->isVectorTy()) {
      std::vector<Val> r; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : cast<FixedVectorType>(c->getType())->getNumElements();
      for (unsigned i = 0; i < n; i++) r.push_back(constVal(cast<UndefValue>(c)->getElementValue(i)));
      return Val::A(std::move(r));
    }
    return Val();
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val::C(addrOfGlobal(g));
  if (isa<ConstantAggregateZero>(c)) {
    std::vector<Val> r; auto *z = cast<ConstantAggregateZero>(c);
    unsigned n = z->getElementCount().getFixedValue();
    for (unsigned i = 0; i < n; i++) r.push_back(constVal(z->getElementValue(i)));
    return Val::A(std::move(r));
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> r;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) r.push_back(constVal(ca->getOperand(i)));
    return Val::A(std::move(r));
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> r;
    for (unsigned i = 0; i < cd->getNumElements(); i++) r.push_back(constVal(cd->getElementAsConstant(i)));
    return Val::A(std::move(r));
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return Val::C(constInt(ce->getOperand(0)) + gepOffset(cast<GEPOperator>(ce)));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case Instruction::Trunc: return Val::C(maskW(constInt(ce->getOperand(0)), widthOf(ce->getType())));
    case Instruction::Add: return Val::C(maskW(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)), widthOf(ce->getType())));
    case Instruction::Sub: return Val::C(maskW(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)), widthOf(ce->getType())));
    default: die("constexpr " + std::string(ce->getOpcodeName()));
    }
  }
  die("constVal");
}
static std::map<int, std::unordered_map<const Constant *, Val>> constMemos; // per rank
static FnInfo *infoOf(Function *f) {
  auto &p = fninfo[f];
  if (!p) {
    p = std::make_unique<FnInfo>();
    p->f = f;
    for (auto &a : f->args()) p->idx[&a] = p->n++;
    for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
    std::string nm = f->getName().str();
    usedFns.insert(nm);
  }
  return p.get();
}
static std::unordered_map<const Constant *, Val> *curMemo = &constMemos[0];
static void setRank(int r) { if (r != gRank) { gRank = r; curMemo = &constMemos[rankGlobals.empty() ? 0 : r]; } }
static Val getV(Frame &fr, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) {
    auto &constMemo = *curMemo;
    auto it = constMemo.find(c);
    if (it != constMemo.end()) return it->second;
    return constMemo[c] = constVal(c);
  }
  auto it = fr.fi->idx.find(v);
  if (it == fr.fi->idx.end()) { if (isa<MetadataAsValue>(v)) return Val(); die("getV"); }
  return fr.regs[it->second];
}
static void setV(Frame &fr, const Value *v, Val x) { if (!v->getType()->isVoidTy()) fr.regs[fr.fi->idx[v]] = std::move(x); }

// ---------------------------------------------------------------- violations
static void pathModelExtra(State &s, const std::vector<E> &base, std::vector<E> &nice) {
  std::unordered_set<E> vs, seen;
  for (auto c : base) collectVars(c, vs, seen);
  for (auto v : vs)
    if (v->s == SR && v->name.find('!') == std::string::npos) {
      nice.push_back(mkLe(v, mkReal(4)));
      nice.push_back(mkLe(mkReal(-4), v));
      if (v->pos) nice.push_back(mkLe(mkReal(mpq_class(1, 8)), v));
    }
}
static int freshN = 0;
static Val defined(const Val &v, Type *t, const char *why) {
  if (v.k != Val::UNDEF) return v;
  if (isFP(t)) return Val::X(mkVar(SR, "uninit!" + std::to_string(freshN++)));
  if (t->isIntegerTy(1)) return Val::X(mkVar(SB, "uninit!" + std::to_string(freshN++)));
  unsigned w = widthOf(t); mpz_class lo = -pow2(w - 1), hi = pow2(w - 1) - 1;
  return Val::X(mkVarIv("uninit!" + std::to_string(freshN++), &lo, &hi));
}
// sine and cosine are opaque: choose the angle that has the values of the model
struct TrigPair { E y, sn, cs; };
static std::vector<TrigPair> trigPairs;
static void fitAngles(std::unordered_map<E, mpq_class> &m) {
  for (auto &t : trigPairs) {
    auto a = m.find(t.sn), b = m.find(t.cs);
    if (a == m.end() || b == m.end()) continue;
    E v = nullptr; mpq_class c = 1, q = 0;
    if (t.y->op == VAR) v = t.y;
    else if (t.y->op == LIN && t.y->lin.size() == 1) { v = t.y->lin[0].first; c = t.y->lin[0].second; q = t.y->q; }
    if (!v || v->op != VAR || v->axiom || v->s != SR) continue;
    double ang = atan2(a->second.get_d(), b->second.get_d());
    m[v] = (mpq_class(ang) - q) / c;
  }
}
static void recordViolation(State &s, const std::string &label, const std::string &detail, const std::unordered_map<E, mpq_class> &model) {
  Viol v; v.label = label; v.detail = detail; v.stack = stackOf(s);
  auto fitted = model;
  fitAngles(fitted);
  for (auto &m : fitted) v.model[m.first->name] = m.second;
  if (++violLabels[label] > 2) return;
  viols.push_back(v);
  fprintf(stderr, "symx: violation %s (%s)\n", label.c_str(), detail.substr(0, 200).c_str());
}
// model of the path condition plus goal; tries to get small, well separated numbers
static bool getModel(State &s, const std::vector<E> &goal, const std::vector<E> &margin, std::unordered_map<E, mpq_class> &model) {
  std::vector<E> base = s.pc;
  base.insert(base.end(), goal.begin(), goal.end());
  std::vector<E> nice = base;
  pathModelExtra(s, base, nice);
  auto nm = nice; nm.insert(nm.end(), margin.begin(), margin.end());
  model.clear();
  if (!margin.empty() && check(nm, &model, quickMs, false) == SAT) return true;
  model.clear();
  auto bm = base; bm.insert(bm.end(), margin.begin(), margin.end());
  if (!margin.empty() && check(bm, &model, quickMs, false) == SAT) return true;
  model.clear();
  if (check(nice, &model, quickMs, false) == SAT) return true;
  model.clear();
  return check(base, &model, slowMs, true) == SAT;
}
static int numericMath = 0; // 1: functions of constants by libm, results exact rationals; 2: coefficients of sums and products rounded as well
static E rnd(E e) { return numericMath == 2 ? roundCoefs(e) : e; }
static long normalForm = 0;
static bool hasProducts(E e) {
  auto one = [](E m) { if (m->op == MON) for (auto &t : m->mon) if (t.second > 0 && t.first->op == LIN) return true; return false; };
  if (e->op != LIN) return one(e);
  for (auto &t : e->lin) if (one(t.first)) return true;
  return false;
}
static Res decide(State &s, E bad, std::unordered_map<E, mpq_class> &model, const std::vector<E> &margin) {
  if (isFalse(bad)) {
    // keep the verdict with the solver: a trivially false goal is still one query
    return UNSAT;
  }
  auto v = sliceFor(s.pc, bad);
  v.push_back(bad);
  bool eq = bad->op == NOT && bad->ch[0]->op == EQ0, tried = false;
  auto expand = [&](size_t budget) {
    // an identity between polynomials, settled by multiplying out
    E x;
    if (!eq || !expandPoly(bad->ch[0]->ch[0], x, budget)) return false;
    E b2 = mkNot(mkEq(x, x->s == SI ? mkInt(0) : mkReal(0)));
    if (isFalse(b2)) { normalForm++; return true; }
    tried = b2 != bad;
    return false;
  };
  if (eq && hasProducts(bad->ch[0]->ch[0]) && expand(50000)) return UNSAT;
  Res r = check(v, nullptr, quickMs, false);
  if (r == UNKNOWN && expand(400000)) return UNSAT;
  auto pinned = [&](int from, int to) {
    // search for a counterexample with most reals pinned to random small rationals
    std::mt19937 rng(1 + from);
    std::unordered_set<E> vs, seen;
    for (auto c : v) collectVars(c, vs, seen);
    std::vector<E> vl;
    for (auto x : vs) if (x->s == SR && !x->axiom) vl.push_back(x);
    for (auto x : vs) if (x->s == SR && x->axiom && x->axiom->op == LT0) vl.push_back(x); // positive inputs
    std::sort(vl.begin(), vl.end(), [](E a, E b) { return a->id < b->id; });
    for (int t = from; t < to; t++) {
      auto w = v;
      for (auto x : vl) {
        if (rng() % 8 < (unsigned)(t % 4)) continue;
        int num = (int)(rng() % 33) - 16; if (x->pos && num <= 0) num = 1 - num;
        w.push_back(mkEq(x, mkReal(mpq_class(num, 8))));
      }
      std::unordered_map<E, mpq_class> mm;
      if (check(w, &mm, quickMs, false) == SAT) { model = mm; return true; }
    }
    return false;
  };
  if (r == UNKNOWN && tried && pinned(0, 6)) return SAT;
  if (r == UNKNOWN) r = check(v, nullptr, slowMs, true);
  if (r == UNKNOWN) return pinned(6, 18) ? SAT : UNKNOWN;
  if (r == SAT) {
    if (!getModel(s, {bad}, margin, model)) return UNKNOWN;
  }
  return r;
}
static void doAssert(State &s, E cond, const std::string &label, const std::vector<E> &margin, const std::string &detail, E lhs = nullptr, E rhs = nullptr) {
  { auto vl = violLabels.find(label); if (vl != violLabels.end() && vl->second >= 2) return; } // enough counterexamples for this label
  assertN++; assertsByLabel[label]++;
  E bad = mkNot(cond);
  if (isFalse(bad)) {
    // both sides have the same normal form; the verdict is still taken from the solver
    simplified[label]++;
    E q = lhs ? mkNeqRaw(lhs, rhs) : bad;
    if (!lhs) return;
    Res r = check({q}, nullptr, quickMs, false);
    if (r == UNSAT) return;
    if (r == SAT) {
      // on the states of this path, where the divisors are not zero
      auto v = sliceFor(s.pc, q);
      v.push_back(q);
      std::unordered_set<E> ds;
      collectDivisors(q, ds);
      for (auto d : ds) v.push_back(mkNot(mkEq(d, mkReal(0))));
      r = check(v, nullptr, quickMs, false);
      if (r == UNSAT) return;
    }
    if (r == UNKNOWN) { normalForm++; return; } // too large to confirm as it stands
    inconclusive.insert(label + " (normal form not confirmed)");
    return;
  }
  std::unordered_map<E, mpq_class> model;
  Res r = decide(s, bad, model, margin);
  if (r == UNSAT) return;
  if (r == UNKNOWN) { inconclusive.insert(label + " " + detail.substr(0, 100)); return; }
  recordViolation(s, label, detail, model);
  if ((int)viols.size() >= maxViol) throw PathEnd{"maxviol"};
  // later assertions are judged on the states that satisfy this one, if there are any
  if (isFalse(cond)) return;
  auto pc = s.pc; pc.push_back(cond);
  if (check(pc, nullptr, quickMs, true) == SAT) addPC(s, cond);
}

// ---------------------------------------------------------------- forking
static State *forkState(State &s) {
  State *n = new State(s);
  // objects are shared copy-on-write through shared_ptr use counts
  forks++;
  return n;
}
// decides a branch condition; may push the other side on the worklist (which re-executes the current instruction)
static bool branchOn(State &s, E c) {
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  Res t = feasible(s, c), f = t == UNSAT ? SAT : feasible(s, mkNot(c));
  if (t == UNKNOWN || f == UNKNOWN) cuts.insert("branch feasibility unknown (both sides explored)");
  if (t != UNSAT && f != UNSAT) {
    State *o = forkState(s);
    addPC(*o, mkNot(c));
    work.push_back(o);
    addPC(s, c);
    return true;
  }
  if (t != UNSAT) { addPC(s, c); return true; }
  if (f != UNSAT) { addPC(s, mkNot(c)); return false; }
  throw PathEnd{"infeasible"};
}
static uint64_t concretize(State &s, const Val &v, unsigned w, const Value *op, const char *why) {
  if (v.k == Val::CONC) return v.b;
  if (v.k == Val::UNDEF) throw Violation{"uninitialised", std::string("use of an uninitialised value as ") + why};
  E e = v.e;
  if (e->s == SB) { bool b = branchOn(s, e); return b; }
  auto cs = sliceFor(s.pc, mkLe(e, mkVar(SI, "conc!dummy")));
  std::unordered_map<E, mpq_class> m;
  cs.push_back(mkOr(mkLe(e, mkInt(0)), mkLe(mkInt(0), e)));
  E probe = mkVar(SI, "conc!probe");
  cs.push_back(mkEq(e, probe));
  Res r = check(cs, &m, quickMs, true);
  if (r == UNSAT) throw PathEnd{"infeasible"};
  if (r != SAT) { inconclusive.insert("concretisation"); throw PathEnd{"unknown"}; }
  mpz_class val = m[probe].get_num();
  E eq = mkEq(e, mkInt(val));
  if (feasible(s, mkNot(eq)) != UNSAT) {
    State *o = forkState(s);
    addPC(*o, mkNot(eq));
    work.push_back(o);
  }
  addPC(s, eq);
  Val c = fromE(mkInt(val), w);
  if (op && !isa<Constant>(op)) setV(s.fr(), op, c);
  return c.b;
}

// ---------------------------------------------------------------- calls
static void enterFn(State &s, Function *f, std::vector<Val> &&args, CallBase *cs) {
  FnInfo *fi = infoOf(f);
  Frame fr; fr.fi = fi; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin();
  fr.regs.resize(fi->n);
  for (unsigned i = 0; i < args.size() && i < f->arg_size(); i++) fr.regs[i] = std::move(args[i]);
  fr.callsite = cs;
  if (f->isVarArg()) for (unsigned i = f->arg_size(); i < args.size(); i++) fr.extra.push_back(args[i]);
  coveredBB.insert(fr.bb);
  // byval arguments
  for (auto &a : f->args())
    if (a.hasByValAttr() && cs) {
      Type *t = a.getParamByValType(); uint64_t n = DL->getTypeAllocSize(t);
      uint64_t p = allocObj(s, n, 1, "byval");
      copyMem(s, p, fr.regs[a.getArgNo()].b, n);
      fr.regs[a.getArgNo()] = Val::C(p);
      fr.allocas.push_back(p);
    }
  if (s.fibers[s.cur].st.size() > 400) throw Violation{"recursion", "call depth"};
  s.fibers[s.cur].st.push_back(std::move(fr));
}
static bool switchFiber(State &s);
static void jump(State &s, BasicBlock *to);
static void leaveFn(State &s, Val ret, bool hasRet) {
  Fiber &fb = s.fibers[s.cur];
  Frame fr = std::move(fb.st.back());
  fb.st.pop_back();
  for (auto a : fr.allocas) s.mem.erase(a);
  if (fb.st.empty()) {
    fb.done = true;
    if (s.cur == 0) throw PathEnd{"done"};
    switchFiber(s);
    return;
  }
  Frame &c = fb.st.back();
  CallBase *cs = fr.callsite;
  if (cs) {
    if (hasRet) setV(c, cs, ret);
    if (auto *inv = dyn_cast<InvokeInst>(cs)) jump(s, inv->getNormalDest());
    else ++c.it;
  } // else: caller resumes where it is (fiber start)
}
// after a barrier / completion of the current fiber pick the next runnable one
static bool switchFiber(State &s) {
  int n = (int)s.fibers.size();
  bool anyWait = false, allDone = true;
  for (int i = 1; i < n; i++) { if (!s.fibers[i].done) allDone = false; if (s.fibers[i].waiting) anyWait = true; }
  if (allDone) { s.ranks = false; s.cur = 0; s.fibers.resize(1); return true; }
  for (int i = 1; i < n; i++) if (!s.fibers[i].done && !s.fibers[i].waiting) { s.cur = i; return true; }
  // all remaining are waiting
  for (int i = 1; i < n; i++) if (s.fibers[i].done && anyWait) throw Violation{"collective", "a collective operation was not entered by every rank"};
  for (int i = 1; i < n; i++) s.fibers[i].waiting = false;
  s.cur = 1;
  return true;
}
static std::string nameIdx(State &s, std::vector<Val> &a, unsigned n) {
  std::string r = cstr(s, a[0].b);
  for (unsigned i = 1; i <= n; i++) r += "_" + std::to_string((int)sextW(a[i].b, 32));
  return r;
}
static void advance(State &s, CallBase *cb) {
  Frame &c = s.fr();
  if (auto *inv = dyn_cast<InvokeInst>(cb)) jump(s, inv->getNormalDest());
  else ++c.it;
}
static E absE(E x) { if (isNonneg(x)) return x; return mkIte(mkLe(mkReal(0), x), x, mkScale(x, -1)); }
static void cutIf(State &s, E bad, const std::string &what) {
  if (isFalse(bad)) return;
  Res r = feasible(s, bad);
  if (r == UNSAT) return;
  std::string fn = demangle(s.fr().fi->f->getName().str());
  size_t p = fn.find('('); if (p != std::string::npos) fn = fn.substr(0, p);
  cuts.insert(what + " assumed away in " + fn.substr(0, 120));
  if (feasible(s, mkNot(bad)) == UNSAT) throw PathEnd{"cut"};
  addPC(s, mkNot(bad));
}
static E trig(const char *fn, E x) {
  // sin/cos pair with s^2+c^2=1, odd/even normalisation by leading sign
  if (x->op == CONST && x->q == 0) return mkReal(!strcmp(fn, "cos") ? 1 : 0);
  mpq_class sg = 1;
  E y = x;
  if (x->op == LIN ? x->lin[0].second < 0 : x->op == CONST && x->q < 0) { y = mkScale(x, -1); sg = -1; }
  E sn = mkUF("sin", {y}), cs = mkUF("cos", {y});
  if (!sn->axiom) {
    E ax = mkEq(mkAdd(mkMul(sn, sn), mkMul(cs, cs)), mkReal(1));
    sn->axiom = ax; cs->axiom = ax;
    trigPairs.push_back({y, sn, cs});
  }
  return !strcmp(fn, "cos") ? cs : mkScale(sn, sg);
}
static E powE(State &s, E x, E y) {
  if (y->op == CONST) {
    if (y->q.get_den() == 1 && abs(y->q) <= 64) {
      int n = (int)y->q.get_num().get_si();
      if (n < 0) cutIf(s, mkEq(x, mkReal(0)), "pow(0, negative)");
      return mkPow(x, n);
    }
    if (y->q.get_den() == 2 && abs(y->q) <= 16) {
      cutIf(s, mkLt(x, mkReal(0)), "pow(negative, fraction)");
      int n = (int)y->q.get_num().get_si();
      return mkPow(mkSqrt(x), n);
    }
  }
  if (x->op == CONST && x->q == 1) return mkReal(1);
  cutIf(s, mkLt(x, mkReal(0)), "pow(negative, fraction)");
  E v = mkUF("pow", {x, y});
  if (!v->axiom) {
    v->nonneg = true; if (isPos(x)) v->pos = true;
    // x>0 -> v>0 ; x=1 -> v=1 ; (0<y) -> (x=0 <-> v=0), (x<1 <-> v<1), (x>1 <-> v>1)
    E o = mkReal(1), z = mkReal(0);
    Node *vv = const_cast<Node *>(v); bool p = vv->pos; vv->pos = vv->nonneg = false;
    E ax = mkOr(mkLe(x, z), mkLt(z, v));
    ax = mkAnd(ax, mkLe(z, v));
    ax = mkAnd(ax, mkOr(mkNot(mkEq(x, o)), mkEq(v, o)));
    E yp = mkLt(z, y);
    ax = mkAnd(ax, mkOr(mkNot(yp), mkAnd(mkAnd(mkEq(mkEq(x, z), mkEq(v, z)), mkEq(mkLt(x, o), mkLt(v, o))), mkEq(mkLt(o, x), mkLt(o, v)))));
    vv->pos = p; vv->nonneg = true;
    v->axiom = ax;
  }
  return v;
}
static bool mathCall(State &s, const std::string &n, std::vector<Val> &a, Val &out) {
  auto R = [&](int i) { return toR(a[i]); };
  if (numericMath) {
    bool c = true;
    for (auto &v : a) c = c && v.k != Val::UNDEF && v.k != Val::AGG && (v.k != Val::EXPR || v.e->s == SR) && toR(v)->op == CONST;
    if (c && !a.empty()) {
      double x = R(0)->q.get_d(), y = a.size() > 1 ? R(1)->q.get_d() : 0, r = 0;
      bool ok = true;
      if (n == "sqrt") r = std::sqrt(x); else if (n == "sin") r = std::sin(x); else if (n == "cos") r = std::cos(x);
      else if (n == "tan") r = std::tan(x); else if (n == "exp") r = std::exp(x); else if (n == "log") r = std::log(x);
      else if (n == "asin") r = std::asin(x); else if (n == "acos") r = std::acos(x); else if (n == "atan") r = std::atan(x);
      else if (n == "pow") r = std::pow(x, y); else if (n == "atan2") r = std::atan2(x, y);
      else ok = false;
      if (ok && std::isfinite(r)) { out = Val::X(mkReal(mpq_class(r))); return true; }
    }
  }
  if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint") {
    if (a[0].k == Val::UNDEF) { out = Val(); return true; }
    Val r; mathCall(s, n.find("round") != std::string::npos ? "round" : "rint", a, r);
    E i = mkTrunc(toR(r)); mpz_class lo = -pow2(63), hi = pow2(63) - 1;
    if (!isC(i) && !(i->iv.hl && i->iv.hh && i->iv.lo >= lo && i->iv.hi <= hi)) cutIf(s, mkOr(mkLt(i, mkInt(lo)), mkLt(mkInt(hi), i)), "float-to-int conversion out of range");
    out = fromE(wrapTo(&s, i, 64), 64); return true;
  }
  if (n == "fdim") { if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF) { out = Val(); return true; } E x = R(0), y = R(1); out = Val::X(mkIte(mkLe(x, y), mkReal(0), mkSub(x, y))); return true; }
  if (n == "ldexp" || n == "exp2") {
    for (auto &v : a) if (v.k == Val::UNDEF) { out = Val(); return true; }
    out = Val::X(n == "exp2" ? powE(s, mkReal(2), R(0)) : mkMul(R(0), powE(s, mkReal(2), mkToReal(toE(a[1], 32))))); return true;
  }
  if (n == "log1p" || n == "expm1") {
    if (a[0].k == Val::UNDEF) { out = Val(); return true; }
    Val r; std::vector<Val> b{n == "log1p" ? Val::X(mkAdd(R(0), mkReal(1))) : a[0]};
    mathCall(s, n == "log1p" ? "log" : "exp", b, r);
    out = n == "log1p" ? r : Val::X(mkSub(toR(r), mkReal(1))); return true;
  }
  static const std::set<std::string> un = {"sqrt", "fabs", "floor", "ceil", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "round", "trunc", "rint", "nearbyint", "cbrt"};
  static const std::set<std::string> bi = {"pow", "fmin", "fmax", "minnum", "maxnum", "fmod", "atan2", "hypot", "copysign", "powi"};
  bool u = un.count(n), b = bi.count(n);
  if (!u && !b && n.size() > 3 && (n.back() == 'f' || n.back() == 'l') && (un.count(n.substr(0, n.size() - 1)) || bi.count(n.substr(0, n.size() - 1)))) return mathCall(s, n.substr(0, n.size() - 1), a, out);
  if (!u && !b) return false;
  for (auto &v : a) if (v.k == Val::UNDEF) { out = Val(); return true; }
  if (n == "sqrt") {
    E x = R(0);
    if (!isNonneg(x)) cutIf(s, mkLt(x, mkReal(0)), "sqrt of a negative number");
    out = Val::X(mkSqrt(x));
  } else if (n == "fabs") out = Val::X(absE(R(0)));
  else if (n == "floor") out = Val::X(mkToReal(mkFloor(R(0))));
  else if (n == "ceil") out = Val::X(mkScale(mkToReal(mkFloor(mkScale(R(0), -1))), -1));
  else if (n == "trunc") out = Val::X(mkToReal(mkTrunc(R(0))));
  else if (n == "round") { E x = R(0); out = Val::X(mkIte(mkLe(mkReal(0), x), mkToReal(mkFloor(mkAdd(x, mkReal(mpq_class(1, 2))))), mkScale(mkToReal(mkFloor(mkAdd(mkScale(x, -1), mkReal(mpq_class(1, 2))))), -1))); }
  else if (n == "rint" || n == "nearbyint") { // ties to even
    E x = mkAdd(R(0), mkReal(mpq_class(1, 2))), f = mkToReal(mkFloor(x));
    out = Val::X(mkIte(mkEq(x, f), mkScale(mkToReal(mkFloor(mkScale(f, mpq_class(1, 2)))), 2), f));
  }
  else if (n == "sin" || n == "cos") out = Val::X(trig(n.c_str(), R(0)));
  else if (n == "tan") { E x = R(0); out = Val::X(mkDiv(trig("sin", x), trig("cos", x))); }
  else if (n == "pow") out = Val::X(powE(s, R(0), R(1)));
  else if (n == "powi") out = Val::X(powE(s, R(0), mkToReal(toE(a[1], 32))));
  else if (n == "fmin" || n == "minnum") { E x = R(0), y = R(1); out = Val::X(mkIte(mkLe(x, y), x, y)); }
  else if (n == "fmax" || n == "maxnum") { E x = R(0), y = R(1); out = Val::X(mkIte(mkLe(y, x), x, y)); }
  else if (n == "copysign") { E x = absE(R(0)), y = R(1); out = Val::X(mkIte(mkLe(mkReal(0), y), x, mkScale(x, -1))); }
  else if (n == "cbrt" && isC(R(0))) { double x = R(0)->q.get_d(), c = std::cbrt(x); mpq_class q(c); out = Val::X(q * q * q == R(0)->q ? mkReal(q) : mkUF("cbrt", {R(0)})); }
  else if (n == "fmod" && isC(R(1)) && R(1)->q != 0) { E x = R(0); mpq_class y = R(1)->q; out = Val::X(mkSub(x, mkScale(mkToReal(mkTrunc(mkScale(x, 1 / y))), y))); }
  else if (n == "hypot") { E x = R(0), y = R(1); out = Val::X(mkSqrt(mkAdd(mkMul(x, x), mkMul(y, y)))); }
  else if (n == "asin") {
    // angle t with sin t = x, cos t = sqrt(1-x^2) >= 0
    E x = R(0);
    cutIf(s, mkOr(mkLt(x, mkReal(-1)), mkLt(mkReal(1), x)), "asin outside [-1,1]");
    E t = mkUF("asin", {x});
    if (!t->axiom) {
      if (x->op == CONST && x->q == 0) { out = Val::X(mkReal(0)); return true; }
      E sn = mkUF("sin", {t}), cs = mkUF("cos", {t});
      E ax = mkAnd(mkAnd(mkEq(sn, x), mkLe(mkReal(0), cs)), mkEq(mkAdd(mkMul(sn, sn), mkMul(cs, cs)), mkReal(1)));
      ax = mkAnd(ax, mkAnd(mkLe(mkReal(mpq_class(-11, 7)), t), mkLe(t, mkReal(mpq_class(11, 7)))));
      sn->axiom = ax; cs->axiom = ax; t->axiom = ax;
    }
    out = Val::X(t);
  } else {
    std::vector<E> as; for (auto &v : a) as.push_back(toR(v));
    cuts.insert("uninterpreted " + n);
    out = Val::X(mkUF(n, as));
  }
  return true;
}
static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static void finishPathModel(State &s);
static int fpKind(E e);
static uint64_t fakeVt, fakeFacet; // what the inlined parts of the standard streams look at
static void storeP(State &s, uint64_t p, uint64_t v) { Obj &o = objFor(s, p, 8, true); rawStore(o, p - o.base, Val::C(v), 8); }
// returns true if handled (and instruction pointer advanced or frame pushed)
static void callExternal(State &s, CallBase *cb, Function *f, std::vector<Val> &a) {
  std::string n = f->getName().str();
  Val ret; bool has = !cb->getType()->isVoidTy();
  auto fin = [&](Val r) { if (has) setV(s.fr(), cb, r); advance(s, cb); };
  auto I = [&](int i) -> uint64_t { return concretize(s, a[i], widthOf(cb->getArgOperand(i)->getType()), cb->getArgOperand(i), "call argument"); };
  // ---- intrinsics
  if (startsWith(n, "llvm.")) {
    auto id = f->getIntrinsicID();
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = I(0), sr = I(1), l = I(2); copyMem(s, d, sr, l); return fin(ret); }
    case Intrinsic::memset: {
      uint64_t d = I(0), l = I(2);
      if (a[1].k == Val::UNDEF) { if (l) { Obj &o = objFor(s, d, l, true); for (uint64_t i = 0; i < l; i++) rawStore(o, d - o.base + i, Val(), 1); } }
      else setMem(s, d, (int)I(1) & 255, l);
      return fin(ret);
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
    case Intrinsic::assume: case Intrinsic::var_annotation: return fin(Val());
    case Intrinsic::vaend: return fin(Val());
    case Intrinsic::vastart: { // SysV va_list with the register save area already exhausted
      uint64_t ap = I(0); Frame &fr = s.fr();
      uint64_t area = allocObj(s, 8 * fr.extra.size() + 8, 1, "varargs"); fr.allocas.push_back(area);
      for (size_t i = 0; i < fr.extra.size(); i++) {
        Val v = fr.extra[i];
        Obj &o = objFor(s, area + 8 * i, 8, true);
        rawStore(o, 8 * i, v, 8);
      }
      { Obj &o = objFor(s, ap, 24, true); uint64_t off = ap - o.base; rawStore(o, off, Val::C(48), 4); rawStore(o, off + 4, Val::C(176), 4); rawStore(o, off + 8, Val::C(area), 8); rawStore(o, off + 16, Val::C(0), 8); }
      return fin(Val());
    }
    case Intrinsic::stacksave: return fin(Val::C(0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return fin(a[0]);
    case Intrinsic::is_constant: return fin(Val::C(0));
    case Intrinsic::objectsize: return fin(Val::C(~0ULL));
    case Intrinsic::trap: throw Violation{"trap", "llvm.trap"};
    case Intrinsic::fmuladd: case Intrinsic::fma: { if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF || a[2].k == Val::UNDEF) return fin(Val()); return fin(Val::X(mkAdd(mkMul(toR(a[0]), toR(a[1])), toR(a[2])))); }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
      unsigned w = widthOf(cb->getType());
      if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF) return fin(Val());
      E x = toE(a[0], w), y = toE(a[1], w), ux = x, uy = y;
      if (id == Intrinsic::umax || id == Intrinsic::umin) { ux = unsignedOf(x, w); uy = unsignedOf(y, w); }
      bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
      return fin(fromE(mkIte(mkLe(ux, uy), mx ? y : x, mx ? x : y), w));
    }
    case Intrinsic::abs: { unsigned w = widthOf(cb->getType()); if (a[0].k == Val::UNDEF) return fin(Val()); E x = toE(a[0], w); return fin(fromE(mkIte(mkLe(mkInt(0), x), x, mkScale(x, -1)), w)); }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned w = widthOf(cb->getArgOperand(0)->getType());
      bool uns = id == Intrinsic::umul_with_overflow || id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow;
      E x = toE(a[0], w), y = toE(a[1], w);
      if (uns) { x = unsignedOf(x, w); y = unsignedOf(y, w); }
      E r = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? mkMul(x, y) : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? mkAdd(x, y) : mkSub(x, y);
      mpz_class lo = uns ? mpz_class(0) : mpz_class(-pow2(w - 1)), hi = uns ? mpz_class(pow2(w) - 1) : mpz_class(pow2(w - 1) - 1);
      E ov = mkOr(mkLt(r, mkInt(lo)), mkLt(mkInt(hi), r));
      if (!isC(ov) && feasible(s, ov) == UNSAT) ov = mkBool(false);
      return fin(Val::A({fromE(wrapTo(&s, r, w), w), fromE(ov, 1)}));
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      unsigned w = widthOf(cb->getType()); uint64_t x = I(0), r = 0;
      if (id == Intrinsic::ctpop) r = __builtin_popcountll(x);
      else if (id == Intrinsic::ctlz) { r = w; for (unsigned i = 0; i < w; i++) if (x >> i & 1) r = w - 1 - i; }
      else if (id == Intrinsic::cttz) { r = w; for (int i = w - 1; i >= 0; i--) if (x >> i & 1) r = i; }
      else die("bswap");
      return fin(Val::C(r));
    }
    case Intrinsic::is_fpclass: {
      if (a[0].k == Val::UNDEF) return fin(Val());
      uint64_t m = I(1); E x = toR(a[0]); int k = fpKind(x);
      if (k == 2) return fin(Val::C((m & 3) != 0));
      if (k == 1 || k == -1) return fin(Val::C((m & (k > 0 ? 512 : 4)) != 0));
      E r = mkIte(mkLt(x, mkReal(0)), mkBool(m & 8), mkIte(mkLt(mkReal(0), x), mkBool(m & 256), mkBool(m & 64)));
      return fin(fromE(r, 1));
    }
    case Intrinsic::threadlocal_address: return fin(a[0]);
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = widthOf(cb->getType()); uint64_t x = I(0), y = I(1); unsigned k = I(2) % w;
      if (id == Intrinsic::fshr) k = (w - k) % w; else if (!k) return fin(Val::C(x));
      if (!k) return fin(Val::C(y));
      return fin(Val::C(maskW((x << k) | (maskW(y, w) >> (w - k)), w)));
    }
    case Intrinsic::usub_sat: { unsigned w = widthOf(cb->getType()); if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF) return fin(Val()); E x = unsignedOf(toE(a[0], w), w), y = unsignedOf(toE(a[1], w), w); return fin(fromE(wrapTo(&s, mkIte(mkLe(x, y), mkInt(0), mkSub(x, y)), w), w)); }
    default: break;
    }
    std::string m = n.substr(5); m = m.substr(0, m.find('.'));
    if (mathCall(s, m, a, ret)) return fin(ret);
    die("intrinsic " + n);
  }
  if (mathCall(s, n, a, ret)) return fin(ret);
  // ---- harness API
  if (startsWith(n, "sx_")) {
    if (n == "sx_real" || n == "sx_real_pos") {
      E v = mkVar(SR, nameIdx(s, a, 3));
      if (n == "sx_real_pos" && !v->pos) { E c = mkLt(mkReal(0), v); v->pos = true; v->axiom = c; }
      return fin(Val::X(v));
    }
    if (n == "sx_int" || n == "sx_choose") {
      std::string nm = nameIdx(s, a, 1);
      mpz_class lo = mpzS(sextW(I(2), 32)), hi = mpzS(sextW(I(3), 32));
      E v = mkVarIv(nm, &lo, &hi);
      if (n == "sx_choose") {
        // fork over every value
        if (lo == hi) return fin(fromE(mkInt(lo), 32));
        for (mpz_class x = lo; x <= hi; x++) {
          E eq = mkEq(v, mkInt(x));
          if (feasible(s, eq) == UNSAT) continue;
          if (x < hi && feasible(s, mkLt(mkInt(x), v)) != UNSAT) {
            State *o = forkState(s);
            addPC(*o, mkLt(mkInt(x), v));
            work.push_back(o);
          }
          addPC(s, eq);
          return fin(fromE(mkInt(x), 32));
        }
        throw PathEnd{"infeasible"};
      }
      return fin(Val::X(v));
    }
    if (n == "sx_cfg") { std::string k = cstr(s, a[0].b); auto it = cfgKV.find(k); return fin(it == cfgKV.end() ? a[1] : Val::C(maskW((uint64_t)(int64_t)it->second, 32))); }
    if (n == "sx_conc") { uint64_t x = I(0); return fin(Val::C(x)); }
    if (n == "sx_assume_eq") {
      E c = mkEq(toR(defined(a[0], cb->getArgOperand(0)->getType(), "assume")), toR(defined(a[1], cb->getArgOperand(1)->getType(), "assume")));
      if (feasible(s, c, true) == UNSAT) throw PathEnd{"assume"};
      addPC(s, c);
      return fin(ret);
    }
    if (n == "sx_assume") {
      Val v = defined(a[0], cb->getArgOperand(0)->getType(), "assume");
      E c = toE(v, 1);
      if (c->s == SI) c = mkNot(mkEq(c, mkInt(0)));
      Res r = feasible(s, c, true);
      if (r == UNSAT) throw PathEnd{"assume"};
      addPC(s, c);
      return fin(ret);
    }
    if (n == "sx_assert") {
      std::string l = cstr(s, a[1].b);
      E c = toE(defined(a[0], cb->getArgOperand(0)->getType(), "assert"), 1);
      if (c->s == SI) c = mkNot(mkEq(c, mkInt(0)));
      doAssert(s, c, l, {}, "tag " + std::to_string((int)sextW(I(2), 32)));
      return fin(ret);
    }
    if (n == "sx_assert_eq") {
      std::string l = cstr(s, a[2].b);
      E x = toR(defined(a[0], cb->getArgOperand(0)->getType(), "assert")), y = toR(defined(a[1], cb->getArgOperand(0)->getType(), "assert"));
      std::vector<E> mg = {mkOr(mkLe(mkReal(mpq_class(1, 100)), mkSub(x, y)), mkLe(mkReal(mpq_class(1, 100)), mkSub(y, x)))};
      doAssert(s, mkEq(x, y), l, mg, "tag " + std::to_string((int)sextW(I(3), 32)), x, y);
      return fin(ret);
    }
    if (n == "sx_assert_eqi") {
      std::string l = cstr(s, a[2].b);
      E x = toE(defined(a[0], cb->getArgOperand(0)->getType(), "assert"), 64), y = toE(defined(a[1], cb->getArgOperand(0)->getType(), "assert"), 64);
      doAssert(s, mkEq(x, y), l, {}, "tag " + std::to_string((int)sextW(I(3), 32)), x, y);
      return fin(ret);
    }
    if (n == "sx_assert_le") { // a <= b with margin-aware counterexamples
      std::string l = cstr(s, a[2].b);
      E x = toR(defined(a[0], cb->getArgOperand(0)->getType(), "assert")), y = toR(defined(a[1], cb->getArgOperand(0)->getType(), "assert"));
      std::vector<E> mg = {mkLe(mkReal(mpq_class(1, 1000)), mkSub(x, y))};
      doAssert(s, mkLe(x, y), l, mg, "tag " + std::to_string((int)sextW(I(3), 32)));
      return fin(ret);
    }
    if (n == "sx_reach") { std::string l = cstr(s, a[0].b); reachCount[l]++; if (!reached.count(l)) { if (check(s.pc, nullptr, slowMs, true) == SAT) reached.insert(l); } return fin(ret); }
    if (n == "sx_observe") {
      std::string l = cstr(s, a[0].b) + "_" + std::to_string((int)sextW(I(1), 32));
      if (a[2].k != Val::UNDEF) s.obs.push_back({l, toR(a[2])});
      return fin(ret);
    }
    if (n == "sx_info") { infoKV[cstr(s, a[0].b)] = cstr(s, a[1].b); return fin(ret); }
    if (n == "sx_diff_rule") { // declares the derivative of one input with respect to another
      E c = toR(a[0]), x = toR(a[1]), d = toR(a[2]);
      if (c->op != VAR || x->op != VAR) die("sx_diff_rule");
      diffRules[{c, x}] = d;
      return fin(ret);
    }
    if (n == "sx_diff") { // derivative of a term with respect to an input
      E f = toR(defined(a[0], cb->getArgOperand(0)->getType(), "diff")), x = toR(defined(a[1], cb->getArgOperand(0)->getType(), "diff")), d;
      if (!diffE(f, x, d)) die("sx_diff: not differentiable symbolically");
      return fin(fromE(d, 64));
    }
    if (n == "sx_numeric") { numericMath = I(0); return fin(ret); }
    if (n == "sx_strict_div") { strictDiv = I(0); return fin(ret); }
    if (n == "sx_rank") return fin(Val::C(s.ranks ? s.cur - 1 : 0));
    if (n == "sx_size") return fin(Val::C(s.ranks ? s.fibers.size() - 1 : 1));
    if (n == "sx_symbolic") return fin(Val::C(1));
    if (n == "sx_fail") throw Violation{cstr(s, a[0].b), "model error"};
    if (n == "sx_print") { fprintf(stderr, "[sx_print r%d] %s %s\n", s.cur, cstr(s, a[0].b).c_str(), a[1].k == Val::CONC ? std::to_string((int64_t)a[1].b).c_str() : a[1].k == Val::EXPR ? "sym" : "undef"); return fin(ret); }
    if (n == "sx_printd") { std::vector<E> vv; std::string t; if (a[1].k == Val::EXPR) { E g = mkEq(a[1].e, mkVar(SR, "dbg")); t = toSMT({g}, vv); } fprintf(stderr, "[sx_printd] %s %s\n", cstr(s, a[0].b).c_str(), t.c_str()); return fin(ret); }
    if (n == "sx_run_ranks") {
      int np = (int)I(0); Function *fn = fnAt.count(a[1].b) ? fnAt[a[1].b] : nullptr;
      if (!fn) die("sx_run_ranks fn");
      advance(s, cb);
      s.ranks = true;
      s.fibers.resize(1 + np);
      for (int r = 1; r <= np; r++) { s.cur = r; s.fibers[r] = Fiber(); enterFn(s, fn, {}, nullptr); }
      for (auto *g : rankGlobals) for (int r = 1; r <= np; r++) {
        auto o = std::make_shared<Obj>(**findObj(s, gaddr[g]));
        o->base += r * RANK_STRIDE;
        s.mem[o->base] = o;
      }
      s.cur = 1;
      return;
    }
    if (n == "sx_barrier") {
      fin(ret);
      if (s.ranks) { s.fibers[s.cur].waiting = true; switchFiber(s); }
      return;
    }
    die("unknown harness API " + n);
  }
  // ---- C / C++ runtime
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") return fin(Val::C(allocObj(s, I(0), 2, "heap@" + demangle(s.fr().fi->f->getName().str()).substr(0, 60))));
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") return fin(Val::C(allocObj(s, I(0), 2, "heap")));
  if (n == "calloc") { uint64_t sz = I(0) * I(1); uint64_t p = allocObj(s, sz, 2, "heap"); s.mem[p]->bg = 0; return fin(Val::C(p)); }
  if (n == "realloc") {
    uint64_t p = I(0), sz = I(1), q = allocObj(s, sz, 2, "heap");
    if (p) { uint64_t os = (*findObj(s, p))->size; copyMem(s, q, p, std::min(os, sz)); s.mem.erase(p); }
    return fin(Val::C(q));
  }
  if (n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv")) {
    uint64_t p = I(0);
    if (p) {
      ObjP *o = findObj(s, p);
      if (!o || (*o)->base != p || (*o)->kind != 2) throw Violation{"memory", "invalid free"};
      s.mem.erase(p);
    }
    return fin(ret);
  }
  if (n == "memcpy" || n == "memmove") { copyMem(s, I(0), I(1), I(2)); return fin(a[0]); }
  if (n == "memset") { setMem(s, I(0), (int)I(1) & 255, I(2)); return fin(a[0]); }
  if (n == "strlen") return fin(Val::C(cstr(s, I(0)).size()));
  if (n == "strncmp") {
    size_t k = I(2);
    int r = cstr(s, I(0)).substr(0, k).compare(cstr(s, I(1)).substr(0, k));
    return fin(Val::C(maskW((uint64_t)(int64_t)r, 32)));
  }
  if (n == "strcmp") { int r = cstr(s, I(0)).compare(cstr(s, I(1))); return fin(Val::C(maskW((uint64_t)(int64_t)r, 32))); }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t l = I(2), p = I(0), q = I(1); int r = 0;
    for (uint64_t i = 0; i < l && !r; i++) { Obj &o = objFor(s, p + i, 1, false), &o2 = objFor(s, q + i, 1, false); Val x = rawLoad(o, p + i - o.base, 1), y = rawLoad(o2, q + i - o2.base, 1); if (x.k != Val::CONC || y.k != Val::CONC) die("memcmp symbolic"); r = (int)x.b - (int)y.b; }
    return fin(Val::C(maskW((uint64_t)(int64_t)r, 32)));
  }
  if (n == "memchr") {
    uint64_t p = I(0), c = I(1) & 255, l = I(2);
    for (uint64_t i = 0; i < l; i++) { Obj &o = objFor(s, p + i, 1, false); Val v = rawLoad(o, p + i - o.base, 1); if (v.k != Val::CONC) die("memchr symbolic"); if ((v.b & 255) == c) return fin(Val::C(p + i)); }
    return fin(Val::C(0));
  }
  if (n == "strchr" || n == "strrchr") {
    std::string t = cstr(s, I(0)); t.push_back(0); size_t k = n == "strchr" ? t.find((char)I(1)) : t.rfind((char)I(1));
    return fin(Val::C(k == std::string::npos ? 0 : I(0) + k));
  }
  if (n == "strstr") { size_t k = cstr(s, I(0)).find(cstr(s, I(1))); return fin(Val::C(k == std::string::npos ? 0 : I(0) + k)); }
  if (n == "strcpy" || n == "strcat" || n == "strncpy" || n == "strncat") {
    uint64_t d = I(0); std::string t = cstr(s, I(1));
    if (n[3] == 'n') t = t.substr(0, I(2));
    if (n.find("cat") != std::string::npos) d += cstr(s, d).size();
    size_t len = t.size() + 1;
    if (n == "strncpy") { len = I(2); t.resize(len, 0); }
    for (size_t i = 0; i < len; i++) { Obj &o = objFor(s, d + i, 1, true); rawStore(o, d + i - o.base, Val::C((uint8_t)(i < t.size() ? t[i] : 0)), 1); }
    return fin(a[0]);
  }
  if (n == "strtol" || n == "__isoc23_strtol" || n == "strtoll" || n == "__isoc23_strtoll" || n == "atoi" || n == "atol") {
    std::string t = cstr(s, I(0)); char *e; long v = strtol(t.c_str(), &e, n[0] == 'a' ? 10 : (int)I(2));
    if (n[0] != 'a' && I(1)) storeP(s, I(1), I(0) + (e - t.c_str()));
    return fin(Val::C(maskW((uint64_t)v, widthOf(cb->getType()))));
  }
  if (n == "strtod" || n == "atof") {
    std::string t = cstr(s, I(0)); char *e; double v = strtod(t.c_str(), &e);
    if (n[0] != 'a' && I(1)) storeP(s, I(1), I(0) + (e - t.c_str()));
    return fin(Val::X(snapDouble(v)));
  }
  if (n == "__cxa_guard_acquire") { Obj &o = objFor(s, I(0), 1, false); Val v = rawLoad(o, a[0].b - o.base, 1); return fin(Val::C(v.k == Val::CONC && v.b ? 0 : 1)); }
  if (n == "__cxa_guard_release") { Obj &o = objFor(s, I(0), 1, true); rawStore(o, a[0].b - o.base, Val::C(1), 1); return fin(ret); }
  if (n == "__cxa_atexit" || n == "atexit") return fin(Val::C(0));
  if (n == "__cxa_throw" || startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos || n == "_ZSt9terminatev" || n == "__cxa_rethrow") throw Violation{"exception", demangle(n)};
  if (n == "__cxa_allocate_exception") return fin(Val::C(allocObj(s, I(0) + 64, 2, "exc")));
  if (n == "__cxa_pure_virtual") throw Violation{"abort", n};
  if (n == "abort" || n == "exit" || n == "_exit") throw Violation{"abort", n + " called"};
  if (n == "__assert_fail") throw Violation{"assert", cstr(s, I(0))};
  if (n == "rand") { static int rc = 0; mpz_class lo = 0, hi = 2147483647; return fin(Val::X(mkVarIv("rand!" + std::to_string(rc++), &lo, &hi))); }
  if (n == "srand") return fin(ret);
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "snprintf" || n == "vsnprintf" || n == "sprintf") { return fin(Val::C(0)); }
  std::string d = demangle(n);
  if (d.find("std::ios_base::Init") != std::string::npos || d.find("std::ios_base") != std::string::npos || d.find("std::locale") != std::string::npos) { extNoop.insert(d); return fin(has ? Val::C(0) : ret); }
  if (d.find("ostream") != std::string::npos || d.find("std::basic_ios") != std::string::npos || d.find("istream") != std::string::npos || d.find("std::__cxx11::basic_string<") != std::string::npos ||
      d.find("stringbuf") != std::string::npos || d.find("filebuf") != std::string::npos || d.find("stringstream") != std::string::npos || d.find("std::chrono") != std::string::npos) {
    extNoop.insert(d.substr(0, 90));
    if ((n.find("stream") != std::string::npos) && (n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos) && !a.empty()) { storeP(s, I(0), fakeVt); storeP(s, I(0) + 240, fakeFacet); }
    if (d.find("::str() const") != std::string::npos && !has && !a.empty()) { storeP(s, I(0), I(0) + 16); storeP(s, I(0) + 8, 0); storeP(s, I(0) + 16, 0); }
    if (!has) return fin(ret);
    if (cb->getType()->isPointerTy() && !a.empty()) return fin(a[0]);
    return fin(Val::C(0));
  }
  throw Violation{"unmodelled", "call of unmodelled function " + d};
}

// ---------------------------------------------------------------- instructions
static E half(State &s, E e) {
  auto it = zextSrc.find(e);
  if (it != zextSrc.end()) return it->second;
  if (isC(e)) { mpz_class v = e->q.get_num(); if (v < 0 || v >= pow2(32)) return nullptr; return mkInt(v >= pow2(31) ? mpz_class(v - pow2(32)) : v); }
  if (e->s == SI && feasible(s, mkOr(mkLt(e, mkInt(0)), mkLe(mkInt(pow2(31)), e))) == UNSAT) return e;
  return nullptr;
}
static Val binop(State &s, unsigned op, Type *t, const Val &x, const Val &y, Instruction &I) {
  if (t->isVectorTy()) {
    std::vector<Val> r; Type *et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < x.a->size(); i++) r.push_back(binop(s, op, et, (*x.a)[i], (*y.a)[i], I));
    return Val::A(std::move(r));
  }
  if (x.k == Val::UNDEF || y.k == Val::UNDEF) return Val();
  if (isFP(t)) {
    E a = toR(x), b = toR(y);
    switch (op) {
    case Instruction::FAdd: return Val::X(rnd(mkAdd(a, b)));
    case Instruction::FSub: return Val::X(rnd(mkSub(a, b)));
    case Instruction::FMul: return Val::X(rnd(mkMul(a, b)));
    case Instruction::FDiv:
      if (isC(b) && b->q == 0) {
// a NaN or an infinity: unconstrained, so that nothing can be shown of it
        return Val::X(mkUF("divz", {a}));
      }
      if (!isC(b) && !isPos(b)) {
        E z = mkEq(b, mkReal(0));
        if (strictDiv) { if (feasible(s, z, true) != UNSAT) { std::unordered_map<E, mpq_class> m; if (getModel(s, {z}, {}, m)) { recordViolation(s, "div-by-zero", "denominator may vanish", m); } addPC(s, mkNot(z)); } }
        else cutIf(s, z, "zero denominator");
      }
      return Val::X(rnd(mkDiv(a, b)));
    case Instruction::FRem: { Val o; std::vector<Val> as{Val::X(a), Val::X(b)}; mathCall(s, "fmod", as, o); return o; }
    }
  }
  unsigned w = widthOf(t);
  if (w == 1) {
    E a = toE(x, 1), b = toE(y, 1);
    switch (op) {
    case Instruction::And: case Instruction::Mul: return fromE(mkAnd(a, b), 1);
    case Instruction::Or: return fromE(mkOr(a, b), 1);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromE(mkNot(mkEq(a, b)), 1);
    default: die("i1 op");
    }
  }
  if (x.k == Val::CONC && y.k == Val::CONC) {
    uint64_t a = x.b, b = y.b, r = 0; int64_t sa = sextW(a, w), sb = sextW(b, w);
    switch (op) {
    case Instruction::Add: r = a + b; break;
    case Instruction::Sub: r = a - b; break;
    case Instruction::Mul: r = a * b; break;
    case Instruction::SDiv: if (!sb) throw Violation{"int-div-by-zero", ""}; r = (uint64_t)(sb == -1 ? -(uint64_t)sa : (uint64_t)(sa / sb)); break;
    case Instruction::SRem: if (!sb) throw Violation{"int-div-by-zero", ""}; r = sb == -1 ? 0 : (uint64_t)(sa % sb); break;
    case Instruction::UDiv: if (!b) throw Violation{"int-div-by-zero", ""}; r = a / b; break;
    case Instruction::URem: if (!b) throw Violation{"int-div-by-zero", ""}; r = a % b; break;
    case Instruction::Shl: r = b >= w ? 0 : a << b; break;
    case Instruction::LShr: r = b >= w ? 0 : a >> b; break;
    case Instruction::AShr: r = (uint64_t)(sa >> (b >= w ? w - 1 : b)); break;
    case Instruction::And: r = a & b; break;
    case Instruction::Or: r = a | b; break;
    case Instruction::Xor: r = a ^ b; break;
    default: die("binop");
    }
    return Val::C(maskW(r, w));
  }
  E a = toE(x, w), b = toE(y, w);
  if (a->s == SR || b->s == SR) die("integer operation on the bits of a real in " + demangle(I.getFunction()->getName().str()));
  if (a->s == SB) a = mkIte(a, mkInt(1), mkInt(0));
  if (b->s == SB) b = mkIte(b, mkInt(1), mkInt(0));
  auto W = [&](E e) { return fromE(wrapTo(&s, e, w), w); };
  auto nonneg = [&](E e) { if (isNonneg(e)) return true; return feasible(s, mkLt(e, mkInt(0))) == UNSAT; };
  switch (op) {
  case Instruction::Add: return W(mkAdd(a, b));
  case Instruction::Sub: return W(mkSub(a, b));
  case Instruction::Mul: return W(mkMul(a, b));
  case Instruction::SDiv: case Instruction::SRem: {
    if (!isC(b)) { E z = mkEq(b, mkInt(0)); if (feasible(s, z) != UNSAT) { std::unordered_map<E, mpq_class> m; getModel(s, {z}, {}, m); recordViolation(s, "int-div-by-zero", "", m); addPC(s, mkNot(z)); } }
    E q = nonneg(a) && isC(b) && b->q > 0 ? mkFloorDiv(a, b->q.get_num()) : mkTruncDivE(a, b);
    if (op == Instruction::SDiv) return W(q);
    return W(mkSub(a, mkMul(q, b)));
  }
  case Instruction::UDiv: case Instruction::URem: {
    E ua = nonneg(a) ? a : unsignedOf(a, w), ub = nonneg(b) ? b : unsignedOf(b, w);
    if (!isC(ub)) { E z = mkEq(ub, mkInt(0)); if (feasible(s, z) != UNSAT) throw Violation{"int-div-by-zero", ""}; }
    E q = isC(ub) ? mkFloorDiv(ua, ub->q.get_num()) : mkTruncDivE(ua, ub);
    if (op == Instruction::UDiv) return W(q);
    return W(mkSub(ua, mkMul(q, ub)));
  }
  case Instruction::Shl:
    if (y.k == Val::CONC && y.b == 32 && w == 64) if (E v = half(s, a)) { E r = mkScale(v, mpq_class(pow2(32))); shlSrc[r] = v; return fromE(r, w); }
    if (y.k != Val::CONC) { uint64_t k = concretize(s, y, w, I.getOperand(1), "shift amount"); return W(mkScale(a, mpq_class(pow2(k)))); }
    return W(mkScale(a, mpq_class(pow2(y.b))));
  case Instruction::LShr: case Instruction::AShr: {
    uint64_t k = y.k == Val::CONC ? y.b : concretize(s, y, w, I.getOperand(1), "shift amount");
    if (k == 32 && w == 64) { auto it = packed.find(a); if (it != packed.end()) return fromE(op == Instruction::LShr ? unzext(it->second.first) : it->second.first, w); }
    E ua = op == Instruction::LShr && !nonneg(a) ? unsignedOf(a, w) : a;
    return W(mkFloorDiv(ua, pow2(k)));
  }
  case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    if (op == Instruction::Or && w == 64)
      for (int k = 0; k < 2; k++) {
        E hi = k ? b : a, lo = k ? a : b;
        auto it = shlSrc.find(hi);
        E h = it != shlSrc.end() ? it->second : nullptr;
        if (!h && isC(hi) && hi->q.get_num() % pow2(32) == 0) h = mkInt(mpz_class(hi->q.get_num() / pow2(32)));
        if (!h) continue;
        if (E l = half(s, lo)) { E r = mkAdd(hi, lo); if (!isC(r)) packed[r] = {h, l}; return fromE(r, w); }
      }
    if (x.k == Val::CONC) { std::swap(a, b); }
    const Val &cv = x.k == Val::CONC ? x : y;
    if (cv.k == Val::CONC) {
      uint64_t m = cv.b; int64_t sm = sextW(m, w);
      if (op == Instruction::And) {
        if (m == 0) return Val::C(0);
        if (sm == -1) return fromE(a, w);
        if ((m & (m + 1)) == 0) { mpz_class k = mpz_class(mpzS((int64_t)m)) + 1; return W(mkSub(a, mkScale(mkFloorDiv(a, k), mpq_class(k)))); }
        uint64_t inv = maskW(~m, w);
        if ((inv & (inv + 1)) == 0) { mpz_class k = mpz_class(mpzS((int64_t)inv)) + 1; return W(mkScale(mkFloorDiv(a, k), mpq_class(k))); }
      } else if (op == Instruction::Or) {
        if (m == 0) return fromE(a, w);
        if (auto *pd = dyn_cast<PossiblyDisjointInst>(&I); pd && pd->isDisjoint()) return W(mkAdd(a, b));
      } else {
        if (m == 0) return fromE(a, w);
        if (sm == -1) return W(mkSub(mkScale(a, -1), mkInt(1)));
        if (m == (1ULL << (w - 1))) return W(mkAdd(a, b));
      }
    }
    if (op == Instruction::Or) if (auto *pd = dyn_cast<PossiblyDisjointInst>(&I); pd && pd->isDisjoint()) return W(mkAdd(a, b));
    // fall back: concretise both
    uint64_t ca = concretize(s, x, w, I.getOperand(0), "bit operation"), cbv = concretize(s, y, w, I.getOperand(1), "bit operation");
    return Val::C(op == Instruction::And ? ca & cbv : op == Instruction::Or ? ca | cbv : ca ^ cbv);
  }
  }
  die("binop sym");
}
static E icmpE(State &s, ICmpInst::Predicate p, E a, E b, unsigned w) {
  if (a->s == SB || b->s == SB) {
    if (a->s != SB) a = mkNot(mkEq(a, mkInt(0)));
    if (b->s != SB) b = mkNot(mkEq(b, mkInt(0)));
    if (p == ICmpInst::ICMP_EQ) return mkEq(a, b);
    if (p == ICmpInst::ICMP_NE) return mkNot(mkEq(a, b));
    E ia = mkIte(a, mkInt(1), mkInt(0)), ib = mkIte(b, mkInt(1), mkInt(0));
    bool sg = ICmpInst::isSigned(p);
    if (sg) { ia = mkScale(ia, -1); ib = mkScale(ib, -1); }
    a = ia; b = ib;
  } else if (ICmpInst::isUnsigned(p)) {
    bool na = isNonneg(a), nb = isNonneg(b);
    if (!na && !isC(a) && feasible(s, mkLt(a, mkInt(0))) == UNSAT) na = true;
    if (!nb && !isC(b) && feasible(s, mkLt(b, mkInt(0))) == UNSAT) nb = true;
    if (!na) a = unsignedOf(a, w);
    if (!nb) b = unsignedOf(b, w);
  }
  switch (p) {
  case ICmpInst::ICMP_EQ: return mkEq(a, b);
  case ICmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_ULT: return mkLt(a, b);
  case ICmpInst::ICMP_SLE: case ICmpInst::ICMP_ULE: return mkLe(a, b);
  case ICmpInst::ICMP_SGT: case ICmpInst::ICMP_UGT: return mkLt(b, a);
  case ICmpInst::ICMP_SGE: case ICmpInst::ICMP_UGE: return mkLe(b, a);
  default: die("icmp");
  }
}
// 0: a real number, 1 and -1: the infinities, 2: not a number, 3: one of several
static int fpKind(E e) {
  if (e->op == VAR && e->s == SR) return e->name == "inf" ? 1 : e->name == "minf" ? -1 : e->name == "nan" ? 2 : 0;
  if (e->op == LIN && e->lin.size() == 1) { int k = fpKind(e->lin[0].first); return k == 1 || k == -1 ? (sgn(e->lin[0].second) > 0 ? k : -k) : k == 3 ? 0 : k; }
  if (e->op == ITE && (fpKind(e->ch[1]) || fpKind(e->ch[2]))) return 3;
  return 0;
}
static E fcmpE(FCmpInst::Predicate p, E a, E b) {
  int ka = fpKind(a), kb = fpKind(b);
  if (ka == 3) return mkIte(a->ch[0], fcmpE(p, a->ch[1], b), fcmpE(p, a->ch[2], b));
  if (kb == 3) return mkIte(b->ch[0], fcmpE(p, a, b->ch[1]), fcmpE(p, a, b->ch[2]));
  if (ka == 2 || kb == 2) return mkBool(FCmpInst::isUnordered(p));
  if (ka || kb) { a = mkReal(ka); b = mkReal(kb); } // only the order matters: an infinity is compared with zero or an infinity
  switch (p) {
  case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return mkEq(a, b);
  case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return mkNot(mkEq(a, b));
  case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: return mkLt(a, b);
  case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: return mkLe(a, b);
  case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: return mkLt(b, a);
  case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: return mkLe(b, a);
  default: die("fcmp");
  }
  return nullptr;
}
static Val cmpVal(State &s, CmpInst *ci, Type *t, const Val &x, const Val &y) {
  if (t->isVectorTy()) {
    std::vector<Val> r; Type *et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < x.a->size(); i++) r.push_back(cmpVal(s, ci, et, (*x.a)[i], (*y.a)[i]));
    return Val::A(std::move(r));
  }
  auto p = ci->getPredicate();
  if (isFP(t)) {
    if (p == FCmpInst::FCMP_TRUE) return Val::C(1);
    if (p == FCmpInst::FCMP_FALSE) return Val::C(0);
    if (p == FCmpInst::FCMP_ORD || p == FCmpInst::FCMP_UNO) {
      bool n = (x.k == Val::EXPR && fpKind(x.e) == 2) || (y.k == Val::EXPR && fpKind(y.e) == 2);
      return Val::C(n == (p == FCmpInst::FCMP_UNO));
    }
    if (x.k == Val::UNDEF || y.k == Val::UNDEF) return Val();
    return fromE(fcmpE(p, toR(x), toR(y)), 1);
  }
  if (x.k == Val::UNDEF || y.k == Val::UNDEF) return Val();
  unsigned w = widthOf(t);
  if (x.k == Val::CONC && y.k == Val::CONC) {
    uint64_t a = maskW(x.b, w), b = maskW(y.b, w); int64_t sa = sextW(a, w), sb = sextW(b, w); bool r;
    switch (p) {
    case ICmpInst::ICMP_EQ: r = a == b; break; case ICmpInst::ICMP_NE: r = a != b; break;
    case ICmpInst::ICMP_SLT: r = sa < sb; break; case ICmpInst::ICMP_SLE: r = sa <= sb; break;
    case ICmpInst::ICMP_SGT: r = sa > sb; break; case ICmpInst::ICMP_SGE: r = sa >= sb; break;
    case ICmpInst::ICMP_ULT: r = a < b; break; case ICmpInst::ICMP_ULE: r = a <= b; break;
    case ICmpInst::ICMP_UGT: r = a > b; break; case ICmpInst::ICMP_UGE: r = a >= b; break;
    default: die("icmp");
    }
    return Val::C(r);
  }
  E a = toE(x, w), b = toE(y, w);
  if (a->s == SR || b->s == SR) { // comparing the bits of doubles: the sign bit
    if (a->s == SR && isC(b) && b->q == 0 && w == 64 && (p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_SGE)) { E neg = mkLt(a, mkReal(0)); return fromE(p == ICmpInst::ICMP_SLT ? neg : mkNot(neg), 1); }
    if (a->s == SR && isC(b) && b->q == -1 && w == 64 && (p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_SLE)) { E neg = mkLt(a, mkReal(0)); return fromE(p == ICmpInst::ICMP_SLE ? neg : mkNot(neg), 1); }
    die("icmp on real bits");
  }
  return fromE(icmpE(s, p, a, b, w), 1);
}
static Val castVal(State &s, unsigned op, Type *from, Type *to, const Val &x) {
  if (to->isVectorTy() && from->isVectorTy() && x.k == Val::AGG && cast<FixedVectorType>(to)->getNumElements() == x.a->size()) {
    std::vector<Val> r;
    for (auto &v : *x.a) r.push_back(castVal(s, op, cast<FixedVectorType>(from)->getElementType(), cast<FixedVectorType>(to)->getElementType(), v));
    return Val::A(std::move(r));
  }
  if (x.k == Val::UNDEF) return Val();
  switch (op) {
  case Instruction::Trunc: {
    unsigned w = widthOf(to), wf = widthOf(from);
    if (x.k == Val::CONC) return Val::C(maskW(x.b, w));
    E e = x.e;
    if (e->s == SB) e = mkIte(e, mkInt(1), mkInt(0));
    if (w == 1) {
      if (e->op == ITE && isC(e->ch[1]) && isC(e->ch[2])) return fromE(mkIte(e->ch[0], mkBool(e->ch[1]->q.get_num() % 2 != 0), mkBool(e->ch[2]->q.get_num() % 2 != 0)), 1);
      return fromE(mkNot(mkEq(mkSub(e, mkScale(mkFloorDiv(e, 2), 2)), mkInt(0))), 1);
    }
    if (wf == 64 && w == 32) {
      auto p = packed.find(e);
      if (p != packed.end()) return fromE(p->second.second, w);
      auto z = zextSrc.find(e);
      if (z != zextSrc.end()) return fromE(z->second, w);
    }
    return fromE(wrapTo(&s, e, w), w);
  }
  case Instruction::ZExt: {
    unsigned w = widthOf(from);
    if (x.k == Val::CONC) return Val::C(maskW(x.b, w));
    if (x.e->s == SB) return fromE(mkIte(x.e, mkInt(1), mkInt(0)), widthOf(to));
    E e = x.e;
    if (!isNonneg(e) && feasible(s, mkLt(e, mkInt(0))) == UNSAT) return Val::X(e);
    return fromE(w == 32 ? unzext(e) : unsignedOf(e, w), widthOf(to));
  }
  case Instruction::SExt: {
    if (x.k == Val::CONC) return Val::C(maskW((uint64_t)sextW(x.b, widthOf(from)), widthOf(to)));
    if (x.e->s == SB) return fromE(mkIte(x.e, mkInt(-1), mkInt(0)), widthOf(to));
    return x;
  }
  case Instruction::SIToFP: { E e = toE(x, widthOf(from)); if (e->s == SB) e = mkIte(e, mkInt(-1), mkInt(0)); return Val::X(mkToReal(e)); }
  case Instruction::UIToFP: {
    E e = toE(x, widthOf(from));
    if (e->s == SB) e = mkIte(e, mkInt(1), mkInt(0));
    else if (!isNonneg(e) && feasible(s, mkLt(e, mkInt(0))) != UNSAT) e = unsignedOf(e, widthOf(from));
    return Val::X(mkToReal(e));
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    E r = toR(x);
    E i = mkTrunc(r);
    unsigned w = widthOf(to);
    if (isC(i)) return fromE(i, w);
    mpz_class lo = op == Instruction::FPToSI ? mpz_class(-pow2(w - 1)) : mpz_class(0), hi = op == Instruction::FPToSI ? mpz_class(pow2(w - 1) - 1) : mpz_class(pow2(w) - 1);
    if (!(i->iv.hl && i->iv.hh && i->iv.lo >= lo && i->iv.hi <= hi)) {
      E bad = mkOr(mkLt(i, mkInt(lo)), mkLt(mkInt(hi), i));
      cutIf(s, bad, "float-to-int conversion out of range");
    }
    return fromE(wrapTo(&s, i, w), w);
  }
  case Instruction::BitCast: {
    if (to->isDoubleTy() && x.k == Val::CONC) { double d; memcpy(&d, &x.b, 8); return Val::X(snapDouble(d)); }
    if (to->isIntegerTy() && from->isDoubleTy() && x.k == Val::EXPR && x.e->op == CONST) { double d = x.e->q.get_d(); uint64_t b; memcpy(&b, &d, 8); return Val::C(b); }
    return x;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return x;
  case Instruction::FPExt: case Instruction::FPTrunc: return x; // rounding is outside every property
  }
  die("cast");
}
static void jump(State &s, BasicBlock *to) {
  Frame &f = s.fr();
  BasicBlock *from = f.bb;
  coveredBB.insert(to);
  f.prev = from; f.bb = to; f.it = to->begin();
  // phis evaluated in parallel
  std::vector<std::pair<PHINode *, Val>> vals;
  for (auto &p : to->phis()) vals.push_back({&p, getV(f, p.getIncomingValueForBlock(from))});
  for (auto &v : vals) setV(f, v.first, std::move(v.second));
  while (isa<PHINode>(&*f.it)) ++f.it;
}
static Val &elemRef(Val &v, ArrayRef<unsigned> idx) {
  Val *p = &v;
  for (unsigned i : idx) {
    if (p->k != Val::AGG) die("elemRef");
    auto c = std::make_shared<std::vector<Val>>(*p->a);
    p->a = c;
    p = &(*c)[i];
  }
  return *p;
}
static void step(State &s) {
  Frame &f = s.fr();
  Instruction &I = *f.it;
  s.steps++; totalSteps++;
  {
    unsigned oc = I.getOpcode();
    if (oc == Instruction::Store || oc == Instruction::Call || oc == Instruction::Invoke) s.quiet = 0;
    else if (oc == Instruction::Br && ++s.quiet > 3000000) throw Violation{"nontermination", "three million branches without a store or a call"};
  }
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto &a = cast<AllocaInst>(I);
    uint64_t n = concretize(s, getV(f, a.getArraySize()), 64, a.getArraySize(), "alloca size");
    uint64_t p = allocObj(s, n * DL->getTypeAllocSize(a.getAllocatedType()), 1, "stack@" + demangle(f.fi->f->getName().str()).substr(0, 80));
    f.allocas.push_back(p);
    setV(f, &I, Val::C(p)); ++f.it; return;
  }
  case Instruction::Load: {
    auto &l = cast<LoadInst>(I);
    uint64_t p = concretize(s, getV(f, l.getPointerOperand()), 64, l.getPointerOperand(), "pointer");
    setV(f, &I, loadVal(s, p, l.getType())); ++f.it; return;
  }
  case Instruction::Store: {
    auto &st = cast<StoreInst>(I);
    uint64_t p = concretize(s, getV(f, st.getPointerOperand()), 64, st.getPointerOperand(), "pointer");
    storeVal(s, p, st.getValueOperand()->getType(), getV(f, st.getValueOperand())); ++f.it; return;
  }
  case Instruction::GetElementPtr: {
    auto &g = cast<GEPOperator>(I);
    Val b = getV(f, g.getPointerOperand());
    if (b.k == Val::UNDEF) { setV(f, &I, b); ++f.it; return; }
    uint64_t off = 0; E so = nullptr; bool und = false;
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      Val iv = getV(f, gi.getOperand());
      if (auto *stt = gi.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(iv.b); continue; }
      uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
      unsigned w = widthOf(gi.getOperand()->getType());
      if (iv.k == Val::CONC) off += (uint64_t)sextW(iv.b, w) * es;
      else if (iv.k == Val::UNDEF) und = true;
      else { E t = mkScale(iv.e, mpq_class(mpzS((int64_t)es))); so = so ? mkAdd(so, t) : t; }
    }
    if (und) setV(f, &I, Val());
    else if (!so && b.k == Val::CONC) setV(f, &I, Val::C(b.b + off));
    else {
      E r = mkAdd(toE(b, 64), mkInt(mpzS((int64_t)off)));
      if (so) r = mkAdd(r, so);
      setV(f, &I, fromE(r, 64));
    }
    ++f.it; return;
  }
  case Instruction::Ret: {
    auto &r = cast<ReturnInst>(I);
    Val v; bool has = r.getReturnValue();
    if (has) v = getV(f, r.getReturnValue());
    leaveFn(s, v, has); return;
  }
  case Instruction::Br: {
    auto &b = cast<BranchInst>(I);
    if (b.isUnconditional()) { jump(s, b.getSuccessor(0)); return; }
    Val c = getV(f, b.getCondition());
    if (c.k == Val::UNDEF) throw Violation{"uninitialised", "branch on an uninitialised value"};
    bool t = c.k == Val::CONC ? c.b & 1 : branchOn(s, c.e);
    jump(s, b.getSuccessor(t ? 0 : 1)); return;
  }
  case Instruction::Switch: {
    auto &sw = cast<SwitchInst>(I);
    unsigned w = widthOf(sw.getCondition()->getType());
    Val c = getV(f, sw.getCondition());
    if (c.k == Val::UNDEF) throw Violation{"uninitialised", "switch on an uninitialised value"};
    for (auto &cs : sw.cases()) {
      uint64_t cv = cs.getCaseValue()->getZExtValue();
      if (c.k == Val::CONC) { if (maskW(c.b, w) == cv) { jump(s, cs.getCaseSuccessor()); return; } }
      else if (branchOn(s, mkEq(c.e, mkInt(mpzS(sextW(cv, w)))))) { jump(s, cs.getCaseSuccessor()); return; }
    }
    jump(s, sw.getDefaultDest()); return;
  }
  case Instruction::Unreachable: throw Violation{"unreachable", "reached unreachable code"};
  case Instruction::Call: case Instruction::Invoke: {
    auto &cb = cast<CallBase>(I);
    if (cb.isInlineAsm()) { setV(f, &I, Val()); advance(s, &cb); return; }
    Function *fn = cb.getCalledFunction();
    if (!fn) {
      Value *cv = cb.getCalledOperand()->stripPointerCasts();
      fn = dyn_cast<Function>(cv);
      if (auto *al = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
      if (!fn) {
        uint64_t p = concretize(s, getV(f, cb.getCalledOperand()), 64, cb.getCalledOperand(), "function pointer");
        auto it = fnAt.find(p);
        if (it == fnAt.end()) throw Violation{"memory", "call through a bad function pointer"};
        fn = it->second;
      }
    }
    std::vector<Val> args;
    for (auto &a : cb.args()) args.push_back(getV(f, a.get()));
    if (fn->isDeclaration()) callExternal(s, &cb, fn, args);
    else enterFn(s, fn, std::move(args), &cb);
    return;
  }
  case Instruction::Select: {
    auto &se = cast<SelectInst>(I);
    Val c = getV(f, se.getCondition()), a = getV(f, se.getTrueValue()), b = getV(f, se.getFalseValue());
    if (c.k == Val::UNDEF) { setV(f, &I, Val()); ++f.it; return; }
    if (c.k == Val::AGG) {
      std::vector<Val> r;
      for (size_t i = 0; i < c.a->size(); i++) {
        auto &ci = (*c.a)[i];
        if (ci.k == Val::CONC) r.push_back(ci.b ? (*a.a)[i] : (*b.a)[i]);
        else r.push_back(Val::X(mkIte(ci.e, toR((*a.a)[i]), toR((*b.a)[i]))));
      }
      setV(f, &I, Val::A(std::move(r))); ++f.it; return;
    }
    if (c.k == Val::CONC) { setV(f, &I, c.b & 1 ? a : b); ++f.it; return; }
    Type *t = I.getType();
    if (a.k == Val::UNDEF || b.k == Val::UNDEF || t->isPointerTy() || a.k == Val::AGG) {
      bool tk = branchOn(s, c.e);
      setV(s.fr(), &I, tk ? a : b); ++s.fr().it; return;
    }
    Val r;
    if (isFP(t)) r = Val::X(mkIte(c.e, toR(a), toR(b)));
    else {
      unsigned w = widthOf(t); E ea = toE(a, w), eb = toE(b, w);
      if (ea->s == SB && eb->s == SI) ea = mkIte(ea, mkInt(1), mkInt(0));
      if (eb->s == SB && ea->s == SI) eb = mkIte(eb, mkInt(1), mkInt(0));
      if (ea->s == SR || eb->s == SR) { bool tk = branchOn(s, c.e); setV(s.fr(), &I, tk ? a : b); ++s.fr().it; return; }
      r = fromE(mkIte(c.e, ea, eb), w);
    }
    setV(f, &I, r); ++f.it; return;
  }
  case Instruction::ICmp: case Instruction::FCmp: {
    auto &c = cast<CmpInst>(I);
    setV(f, &I, cmpVal(s, &c, c.getOperand(0)->getType(), getV(f, c.getOperand(0)), getV(f, c.getOperand(1)))); ++f.it; return;
  }
  case Instruction::FNeg: {
    Val v = getV(f, I.getOperand(0));
    if (v.k == Val::AGG) { std::vector<Val> r; for (auto &x : *v.a) r.push_back(x.k == Val::UNDEF ? x : Val::X(mkScale(toR(x), -1))); v = Val::A(std::move(r)); }
    else if (v.k != Val::UNDEF) v = Val::X(mkScale(toR(v), -1));
    setV(f, &I, v); ++f.it; return;
  }
  case Instruction::ExtractValue: {
    auto &e = cast<ExtractValueInst>(I);
    Val v = getV(f, e.getAggregateOperand());
    for (unsigned i : e.indices()) { if (v.k != Val::AGG) { v = Val(); break; } Val t = (*v.a)[i]; v = t; }
    setV(f, &I, v); ++f.it; return;
  }
  case Instruction::InsertValue: {
    auto &e = cast<InsertValueInst>(I);
    Val v = getV(f, e.getAggregateOperand());
    elemRef(v, e.getIndices()) = getV(f, e.getInsertedValueOperand());
    setV(f, &I, v); ++f.it; return;
  }
  case Instruction::ExtractElement: {
    Val v = getV(f, I.getOperand(0)); uint64_t i = getV(f, I.getOperand(1)).b;
    setV(f, &I, v.k == Val::AGG ? Val((*v.a)[i]) : Val()); ++f.it; return;
  }
  case Instruction::InsertElement: {
    Val v = getV(f, I.getOperand(0)); uint64_t i = getV(f, I.getOperand(2)).b;
    elemRef(v, {(unsigned)i}) = getV(f, I.getOperand(1));
    setV(f, &I, v); ++f.it; return;
  }
  case Instruction::ShuffleVector: {
    auto &sv = cast<ShuffleVectorInst>(I);
    Val a = getV(f, sv.getOperand(0)), b = getV(f, sv.getOperand(1)); std::vector<Val> r; int n = a.a->size();
    for (int m : sv.getShuffleMask()) r.push_back(m < 0 ? Val() : m < n ? (*a.a)[m] : (*b.a)[m - n]);
    setV(f, &I, Val::A(std::move(r))); ++f.it; return;
  }
  case Instruction::Freeze: {
    Val v = getV(f, I.getOperand(0));
    if (v.k == Val::UNDEF) v = defined(v, I.getType(), "freeze");
    setV(f, &I, v); ++f.it; return;
  }
  case Instruction::LandingPad: case Instruction::Resume: throw Violation{"exception", "unwinding"};
  case Instruction::Fence: ++f.it; return;
  case Instruction::AtomicRMW: {
    auto &r = cast<AtomicRMWInst>(I);
    uint64_t p = concretize(s, getV(f, r.getPointerOperand()), 64, r.getPointerOperand(), "pointer");
    Val o = loadVal(s, p, r.getType()), x = getV(f, r.getValOperand()), nv;
    if (r.getOperation() == AtomicRMWInst::Add) nv = binop(s, Instruction::Add, r.getType(), o, x, I);
    else if (r.getOperation() == AtomicRMWInst::Sub) nv = binop(s, Instruction::Sub, r.getType(), o, x, I);
    else if (r.getOperation() == AtomicRMWInst::Xchg) nv = x;
    else die("atomicrmw");
    storeVal(s, p, r.getType(), nv); setV(f, &I, o); ++f.it; return;
  }
  default: break;
  }
  if (auto *b = dyn_cast<BinaryOperator>(&I)) { Val r = binop(s, b->getOpcode(), b->getType(), getV(f, b->getOperand(0)), getV(f, b->getOperand(1)), I); setV(s.fr(), &I, r); ++s.fr().it; return; }
  if (auto *c = dyn_cast<CastInst>(&I)) { Val r = castVal(s, c->getOpcode(), c->getSrcTy(), c->getDestTy(), getV(f, c->getOperand(0))); setV(s.fr(), &I, r); ++s.fr().it; return; }
  std::string str; raw_string_ostream os(str); I.print(os);
  die("instruction " + str);
}

// ---------------------------------------------------------------- path ends, main
static std::string mpqDec(const mpq_class &q) { char b[64]; snprintf(b, sizeof b, "%.17g", q.get_d()); return b; }
static void finishPathModel(State &s) {
  // write a concrete trace of this path: inputs + expected observations
  if (nTraces <= 0 || tracePfx.empty() || s.obs.empty()) return;
  std::vector<E> goal;
  std::unordered_map<E, mpq_class> model;
  std::vector<E> base = s.pc, nice;
  for (auto &o : s.obs) { // bring all variables into the query
    base.push_back(mkOr(mkLe(o.second, mkReal(0)), mkLt(mkReal(0), o.second)));
  }
  std::unordered_set<E> vs, seen;
  for (auto &o : s.obs) collectVars(o.second, vs, seen);
  for (auto c : s.pc) collectVars(c, vs, seen);
  std::mt19937 rng(nTraces * 7919);
  nice = s.pc;
  // every variable must be in the query so that the model is total
  std::vector<E> vl(vs.begin(), vs.end());
  std::sort(vl.begin(), vl.end(), [](E a, E b) { return a->id < b->id; });
  std::unordered_set<E> bound, seen2;
  for (auto c : s.pc) collectVars(c, bound, seen2);
  std::vector<E> pins;
  std::vector<std::pair<E, mpq_class>> freeVals;
  for (auto v : vl) if (v->s == SR && v->name.find('!') == std::string::npos) {
    int num = (int)(rng() % 31) + 1; if (!v->pos && rng() % 2) num = -num;
    mpq_class val(num, 8); val.canonicalize();
    if (bound.count(v)) pins.push_back(mkEq(v, mkReal(val))); else freeVals.push_back({v, val});
  }
  auto q = nice; q.insert(q.end(), pins.begin(), pins.end());
  Res r = q.empty() ? SAT : check(q, &model, quickMs, false);
  if (r != SAT) { model.clear(); q = nice; r = check(q, &model, quickMs, true); }
  for (auto &fv : freeVals) if (!model.count(fv.first)) model[fv.first] = fv.second;
  if (r != SAT) return;
  std::unordered_map<E, mpq_class> memo;
  std::ofstream f(tracePfx + std::to_string(nTraces) + ".txt");
  for (auto &m : model) f << "V " << m.first->name << " " << mpqDec(m.second) << "\n";
  for (auto &o : s.obs) { mpq_class v; if (evalE(o.second, model, memo, v)) f << "O " << o.first << " " << mpqDec(v) << "\n"; }
  nTraces--;
}
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static void runState(State *sp) {
  std::unique_ptr<State> own(sp);
  State &s = *sp;
  try {
    while (true) {
      setRank(s.ranks ? s.cur : 0);
      step(s);
      if ((s.steps & 0xfff) == 0 && now() > maxTime) {
        if (s.steps > 50000000) throw Violation{"nontermination", "time limit within one path"};
        inconclusive.insert("time limit"); throw PathEnd{"time"};
      }
      if (s.steps > 400000000) throw Violation{"nontermination", "step limit within one path"};
    }
  } catch (PathEnd &p) {
    if (p.why == "done") { paths++; finishPathModel(s); }
    else if (p.why == "infeasible" || p.why == "assume") infeasible++;
    else paths++;
  } catch (Violation &v) {
    paths++;
    std::unordered_map<E, mpq_class> m;
    if (startsWith(v.label, "unmodelled")) { inconclusive.insert(v.label + " " + v.detail); fprintf(stderr, "symx: %s at %s\n", v.detail.c_str(), stackOf(s).c_str()); return; }
    Res r = check(s.pc, nullptr, quickMs, true);
    if (r == UNSAT) { infeasible++; return; }
    assertN++; assertsByLabel[v.label]++;
    if (getModel(s, {}, {}, m)) recordViolation(s, v.label, v.detail + " at " + stackOf(s), m);
    else inconclusive.insert(v.label + " " + v.detail);
  }
}
// a variable, or the static of a function, of the library (by its mangled name), or the guard of one
static bool ofLibrary(StringRef n) {
  if (!n.consume_front("_Z")) return false;
  n.consume_front("GV");
  bool local = n.starts_with("Z");
  while (n.consume_front("Z")) {}
  StringRef q = n;
  q.consume_front("N"); q.consume_front("K");
  if (q.starts_with("5cafes")) return true;
  if (!local) return false;
  for (auto &f : *M) // a function of its headers outside its namespace
    if (auto *sp = f.getSubprogram())
      if (sp->getFilename().contains("/repo/cafes/") && f.getName().starts_with("_Z") && n.starts_with(f.getName().substr(2))) return true;
  return false;
}
int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  std::string bc, entry = "sx_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = next();
    else if (a == "--out") outFile = next();
    else if (a == "--quick-ms") quickMs = atoi(next().c_str());
    else if (a == "--slow-ms") slowMs = atoi(next().c_str());
    else if (a == "--max-paths") maxPaths = atol(next().c_str());
    else if (a == "--max-time") maxTime = atof(next().c_str());
    else if (a == "--max-viol") maxViol = atoi(next().c_str());
    else if (a == "--cfg") { std::string kv = next(); size_t q = kv.find('='); cfgKV[kv.substr(0, q)] = atoi(kv.c_str() + q + 1); }
    else if (a == "--dump") dumpDir = next();
    else if (a == "--traces") { tracePfx = next(); nTraces = atoi(next().c_str()); }
    else bc = a;
  }
  SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symx", errs()); return 2; }
  DL = &M->getDataLayout();
  State *s = new State();
  s->nextAddr = 0x10000000;
  int rcode = 0;
  try {
    uint64_t fa = 0x1000;
    for (auto &f : *M) { gaddr[&f] = fa; fnAt[fa] = &f; fa += 16; }
    uint64_t ra = 0x4000000000ULL;
    std::vector<GlobalVariable *> gl;
    for (auto &g : M->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
      bool ro = g.isConstant() && g.hasInitializer();
      if (!g.hasInitializer() && sz < 512) sz = 512;
      uint64_t addr;
      if (ro) {
        auto o = std::make_shared<Obj>(); o->base = ra; o->size = sz; o->kind = 0; o->name = g.getName().str();
        ra += ((sz + 15) & ~15ULL) + 32; roMem[o->base] = o; addr = o->base;
      } else addr = allocObj(*s, sz, 0, g.getName().str());
      gaddr[&g] = addr;
      gl.push_back(&g);
      if (!ro && g.hasInitializer() && ofLibrary(g.getName())) rankGlobals.insert(&g);
    }
    for (auto *g : gl) if (g->hasInitializer()) {
      uint64_t ad = gaddr[g];
      ObjP *o = findObj(*s, ad);
      (*o)->bg = 0;
      if (!isa<ConstantAggregateZero>(g->getInitializer())) storeVal(*s, ad, g->getValueType(), constVal(g->getInitializer()));
    } else { (*findObj(*s, gaddr[g]))->bg = 0; }
    fakeVt = allocObj(*s, 512, 0, "stream-table"); (*findObj(*s, fakeVt))->bg = 0; fakeVt += 256;
    fakeFacet = allocObj(*s, 1024, 0, "stream-facet"); (*findObj(*s, fakeFacet))->bg = 1;
    for (auto *g : gl) if (!g->hasInitializer()) {
      std::string gn = g->getName().str();
      if (gn == "_ZSt4cout" || gn == "_ZSt4cerr" || gn == "_ZSt4clog" || gn == "_ZSt3cin") { storeP(*s, gaddr[g], fakeVt); storeP(*s, gaddr[g] + 240, fakeFacet); }
      if (gn.compare(0, 4, "_ZTT") == 0) for (int i = 0; i < 32; i++) storeP(*s, gaddr[g] + 8 * i, fakeVt);
    }
    Function *ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) die("no entry " + entry);
    s->fibers.resize(1);
    // global constructors first: run through a synthetic order by pushing frames in reverse
    enterFn(*s, ef, {}, nullptr);
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<Function *> fs;
        for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op.get()); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back(f); }
        for (auto it = fs.rbegin(); it != fs.rend(); ++it) enterFn(*s, *it, {}, nullptr);
      }
    }
    work.push_back(s);
    while (!work.empty()) {
      State *t = work.back(); work.pop_back();
      if (paths + infeasible > maxPaths) { inconclusive.insert("path limit"); break; }
      if (now() > maxTime) { inconclusive.insert("time limit"); break; }
      if ((int)viols.size() >= maxViol) break;
      runState(t);
    }
  } catch (std::exception &e) {
    inconclusive.insert(std::string("engine: ") + e.what());
    if (!work.empty()) fprintf(stderr, "at %s\n", stackOf(*work.back()).c_str());
    rcode = 2;
  }
  // ---- report
  std::ostringstream os;
  os << "{\n \"paths\": " << paths << ", \"infeasible\": " << infeasible << ", \"forks\": " << forks << ", \"steps\": " << totalSteps << ", \"asserts\": " << assertN;
  os << ", \"queries\": " << sstats.queries << ", \"sat\": " << sstats.sat << ", \"unsat\": " << sstats.unsat << ", \"unknown\": " << sstats.unknown << ", \"cached\": " << sstats.cached << ", \"fallback\": " << sstats.fallback << ", \"normal_form\": " << normalForm;
  os << ", \"solver_s\": " << sstats.seconds << ", \"max_query_s\": " << sstats.maxq << ", \"wall_s\": " << now() << ",\n";
  auto mapj = [&](const char *k, const std::map<std::string, long> &m) { os << " \"" << k << "\": {"; bool f = true; for (auto &x : m) { os << (f ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second; f = false; } os << "},\n"; };
  auto setj = [&](const char *k, const std::set<std::string> &m) { os << " \"" << k << "\": ["; bool f = true; for (auto &x : m) { os << (f ? "" : ", ") << "\"" << jesc(x) << "\""; f = false; } os << "],\n"; };
  mapj("labels", assertsByLabel); mapj("simplified", simplified); mapj("decided_by", sstats.decidedBy);
  setj("reached", reached); setj("cuts", cuts); setj("noop", extNoop); setj("inconclusive", inconclusive);
  std::set<std::string> fns;
  long cafesInst = 0;
  for (auto *bb : coveredBB)
    for (auto &in : *bb) {
      DILocation *dl = in.getDebugLoc().get();
      bool first = true;
      while (dl) {
        DISubprogram *sp = dl->getScope() ? dl->getScope()->getSubprogram() : nullptr;
        if (sp) {
          std::string fn = sp->getFilename().str();
          size_t q = fn.find("/cafes/");
          if (fn.find("/repo/cafes/") != std::string::npos) q = fn.find("/repo/cafes/") + 6;
          if (q != std::string::npos && fn.find("/repo") != std::string::npos) {
            if (first) cafesInst++;
            first = false;
            std::string nm = sp->getName().str();
            if (size_t t = nm.find('<'); t != std::string::npos) nm = nm.substr(0, t);
            fns.insert(fn.substr(q + 0) + ":" + nm);
          }
        }
        dl = dl->getInlinedAt();
      }
    }
  os << " \"cafes_instructions\": " << cafesInst << ",\n";
  setj("functions", fns);
  os << " \"violations\": [";
  for (size_t i = 0; i < viols.size(); i++) {
    os << (i ? "," : "") << "\n  {\"label\": \"" << jesc(viols[i].label) << "\", \"detail\": \"" << jesc(viols[i].detail.substr(0, 600)) << "\", \"stack\": \"" << jesc(viols[i].stack) << "\", \"model\": {";
    bool f = true;
    for (auto &m : viols[i].model) { if (m.first.find('!') != std::string::npos && m.first.compare(0, 4, "rand")) continue; os << (f ? "" : ", ") << "\"" << jesc(m.first) << "\": \"" << mpqDec(m.second) << "\""; f = false; }
    os << "}}";
  }
  os << "]\n}\n";
  if (!outFile.empty()) { std::ofstream o(outFile); o << os.str(); } else fputs(os.str().c_str(), stdout);
  fflush(stdout);
  _Exit(rcode);
}
