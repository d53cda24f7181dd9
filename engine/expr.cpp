#include "expr.hpp"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>

static const size_t DISTLIMIT = 64;

static size_t hmix(size_t a, size_t b) { return a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); }
static size_t hz(const mpz_class &z) {
  size_t h = mpz_sgn(z.get_mpz_t()) + 7;
  size_t n = mpz_size(z.get_mpz_t());
  for (size_t i = 0; i < n; i++) h = hmix(h, mpz_getlimbn(z.get_mpz_t(), i));
  return h;
}
static size_t hq(const mpq_class &q) { return hmix(hz(q.get_num()), hz(q.get_den())); }

static std::unordered_map<size_t, std::vector<Node *>> table;
static std::unordered_map<std::string, E> varTable;
static uint32_t nextId = 1;
size_t nodeCount() { return nextId; }

static bool eqNode(const Node &a, const Node &b) {
  return a.op == b.op && a.s == b.s && a.q == b.q && a.lin == b.lin && a.mon == b.mon && a.ch == b.ch && a.name == b.name;
}
static size_t hashNode(const Node &n) {
  size_t h = hmix(n.op * 31 + n.s, hq(n.q));
  for (auto &t : n.lin) h = hmix(hmix(h, t.first->id), hq(t.second));
  for (auto &t : n.mon) h = hmix(hmix(h, t.first->id), (size_t)t.second);
  for (auto c : n.ch) h = hmix(h, c->id);
  if (!n.name.empty()) h = hmix(h, std::hash<std::string>()(n.name));
  return h;
}
static void calcIv(Node &n);
static E intern(Node &&n) {
  n.hash = hashNode(n);
  auto &v = table[n.hash];
  for (auto p : v)
    if (eqNode(*p, n)) return p;
  Node *p = new Node(std::move(n));
  p->id = nextId++;
  if (p->s == SI) calcIv(*p);
  v.push_back(p);
  return p;
}

static Iv ivC(const mpz_class &z) { Iv i; i.hl = i.hh = true; i.lo = i.hi = z; return i; }
static Iv ivScale(const Iv &a, const mpz_class &c) {
  Iv r;
  if (c == 0) return ivC(0);
  if (c > 0) { r.hl = a.hl; r.hh = a.hh; if (a.hl) r.lo = a.lo * c; if (a.hh) r.hi = a.hi * c; }
  else { r.hl = a.hh; r.hh = a.hl; if (a.hh) r.lo = a.hi * c; if (a.hl) r.hi = a.lo * c; }
  return r;
}
static Iv ivAdd(const Iv &a, const Iv &b) {
  Iv r; r.hl = a.hl && b.hl; r.hh = a.hh && b.hh;
  if (r.hl) r.lo = a.lo + b.lo;
  if (r.hh) r.hi = a.hi + b.hi;
  return r;
}
static Iv ivMul(const Iv &a, const Iv &b) {
  Iv r;
  if (a.hl && a.hh && b.hl && b.hh) {
    mpz_class p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    r.hl = r.hh = true; r.lo = r.hi = p[0];
    for (int i = 1; i < 4; i++) { if (p[i] < r.lo) r.lo = p[i]; if (p[i] > r.hi) r.hi = p[i]; }
  } else if (a.hl && b.hl && a.lo >= 0 && b.lo >= 0) { r.hl = true; r.lo = a.lo * b.lo; }
  return r;
}
static void calcIv(Node &n) {
  switch (n.op) {
  case CONST: n.iv = ivC(n.q.get_num()); break;
  case LIN: {
    Iv r = ivC(n.q.get_num());
    for (auto &t : n.lin) r = ivAdd(r, ivScale(t.first->iv, t.second.get_num()));
    n.iv = r; break;
  }
  case MON: {
    Iv r = ivC(1);
    for (auto &t : n.mon) {
      Iv b = t.first->iv;
      Iv p = ivC(1);
      for (int i = 0; i < t.second; i++) p = ivMul(p, b);
      if (t.second % 2 == 0 && (!p.hl || p.lo < 0)) { p.hl = true; p.lo = 0; }
      r = ivMul(r, p);
    }
    n.iv = r; break;
  }
  case ITE: {
    Iv a = n.ch[1]->iv, b = n.ch[2]->iv, r;
    r.hl = a.hl && b.hl; r.hh = a.hh && b.hh;
    if (r.hl) r.lo = a.lo < b.lo ? a.lo : b.lo;
    if (r.hh) r.hi = a.hi > b.hi ? a.hi : b.hi;
    n.iv = r; break;
  }
  default: break;
  }
}

E mkBool(bool b) { Node n; n.op = CONST; n.s = SB; n.q = b ? 1 : 0; return intern(std::move(n)); }
E mkInt(const mpz_class &z) { Node n; n.op = CONST; n.s = SI; n.q = z; return intern(std::move(n)); }
E mkReal(const mpq_class &q) { Node n; n.op = CONST; n.s = SR; n.q = q; return intern(std::move(n)); }
static E mkConst(Sort s, const mpq_class &q) { return s == SI ? mkInt(q.get_num()) : mkReal(q); }
E findVar(const std::string &name) { auto it = varTable.find(name); return it == varTable.end() ? nullptr : it->second; }
E mkVar(Sort s, const std::string &name) {
  auto it = varTable.find(name);
  if (it != varTable.end()) return it->second;
  Node n; n.op = VAR; n.s = s; n.name = name;
  E e = intern(std::move(n));
  varTable[name] = e;
  return e;
}
E mkVarIv(const std::string &name, const mpz_class *lo, const mpz_class *hi) {
  auto it = varTable.find(name);
  if (it != varTable.end()) return it->second;
  Node n; n.op = VAR; n.s = SI; n.name = name;
  E e = intern(std::move(n));
  Node *m = const_cast<Node *>(e);
  if (lo) { m->iv.hl = true; m->iv.lo = *lo; }
  if (hi) { m->iv.hh = true; m->iv.hi = *hi; }
  varTable[name] = e;
  return e;
}

bool isPos(E e) {
  if (e->pos) return true;
  switch (e->op) {
  case CONST: return e->q > 0;
  case VAR: return e->s == SI && e->iv.hl && e->iv.lo > 0;
  case LIN: {
    if (e->s == SI && e->iv.hl && e->iv.lo > 0) return true;
    if (e->q < 0) return false;
    bool strict = e->q > 0;
    for (auto &t : e->lin) {
      if (t.second < 0) return false;
      if (isPos(t.first)) strict = true;
      else if (!isNonneg(t.first)) return false;
    }
    return strict;
  }
  case MON:
    for (auto &t : e->mon) if (!isPos(t.first)) return false;
    return true;
  case ITE: return isPos(e->ch[1]) && isPos(e->ch[2]);
  case TOREAL: return e->ch[0]->iv.hl && e->ch[0]->iv.lo > 0;
  default: return false;
  }
}
bool isNonneg(E e) {
  if (e->pos || e->nonneg) return true;
  switch (e->op) {
  case CONST: return e->q >= 0;
  case VAR: return e->s == SI && e->iv.hl && e->iv.lo >= 0;
  case LIN:
    if (e->s == SI && e->iv.hl && e->iv.lo >= 0) return true;
    if (e->q < 0) return false;
    for (auto &t : e->lin) if (t.second < 0 || !isNonneg(t.first)) return false;
    return true;
  case MON:
    for (auto &t : e->mon) if (t.second % 2 != 0 && !isNonneg(t.first)) return false;
    return true;
  case ITE: return isNonneg(e->ch[1]) && isNonneg(e->ch[2]);
  case TOREAL: return e->ch[0]->iv.hl && e->ch[0]->iv.lo >= 0;
  default: return false;
  }
}

// ---- linear combinations
static E mkLin(Sort s, const mpq_class &c, std::vector<std::pair<E, mpq_class>> &&t) {
  if (t.empty()) return mkConst(s, c);
  if (t.size() == 1 && c == 0 && t[0].second == 1) return t[0].first;
  Node n; n.op = LIN; n.s = s; n.q = c; n.lin = std::move(t);
  return intern(std::move(n));
}
static void viewLin(E e, mpq_class &c, const std::vector<std::pair<E, mpq_class>> *&t, std::vector<std::pair<E, mpq_class>> &tmp) {
  if (e->op == LIN) { c = e->q; t = &e->lin; }
  else if (e->op == CONST) { c = e->q; tmp.clear(); t = &tmp; }
  else { c = 0; tmp.assign(1, {e, mpq_class(1)}); t = &tmp; }
}
static E addScaled(E a, E b, const mpq_class &kb) {
  mpq_class ca, cb;
  const std::vector<std::pair<E, mpq_class>> *ta, *tb;
  std::vector<std::pair<E, mpq_class>> ua, ub, r;
  viewLin(a, ca, ta, ua);
  viewLin(b, cb, tb, ub);
  r.reserve(ta->size() + tb->size());
  size_t i = 0, j = 0;
  while (i < ta->size() || j < tb->size()) {
    if (j >= tb->size() || (i < ta->size() && (*ta)[i].first->id < (*tb)[j].first->id)) r.push_back((*ta)[i++]);
    else if (i >= ta->size() || (*ta)[i].first->id > (*tb)[j].first->id) { r.push_back({(*tb)[j].first, (*tb)[j].second * kb}); j++; }
    else {
      mpq_class k = (*ta)[i].second + (*tb)[j].second * kb;
      if (k != 0) r.push_back({(*ta)[i].first, k});
      i++; j++;
    }
  }
  return mkLin(a->s, ca + cb * kb, std::move(r));
}
E mkAdd(E a, E b) {
  if (a->s != b->s) { fprintf(stderr, "mkAdd sort mismatch\n"); abort(); }
  return addScaled(a, b, 1);
}
E mkSub(E a, E b) {
  if (a->s != b->s) { fprintf(stderr, "mkSub sort mismatch\n"); abort(); }
  return addScaled(a, b, -1);
}
E mkScale(E a, const mpq_class &c) {
  if (c == 1) return a;
  if (c == 0) return mkConst(a->s, 0);
  if (a->op == CONST) return mkConst(a->s, a->q * c);
  if (a->op == LIN) {
    auto t = a->lin;
    for (auto &x : t) x.second *= c;
    return mkLin(a->s, a->q * c, std::move(t));
  }
  return mkLin(a->s, 0, {{a, c}});
}

static E mkMon(Sort s, std::map<uint32_t, std::pair<E, int>> &f) {
  std::vector<std::pair<E, int>> m;
  for (auto &x : f) if (x.second.second != 0) m.push_back(x.second);
  if (m.empty()) return mkConst(s, 1);
  if (m.size() == 1 && m[0].second == 1) return m[0].first;
  Node n; n.op = MON; n.s = s; n.mon = std::move(m);
  return intern(std::move(n));
}
// pull a scalar coefficient out so that equal-up-to-scale bases coincide
static E primitive(E e, mpq_class &c) {
  c = 1;
  if (e->op != LIN) return e;
  if (e->s == SR) { c = e->lin[0].second; }
  else {
    mpz_class g = abs(e->q.get_num());
    for (auto &t : e->lin) g = gcd(g, abs(t.second.get_num()));
    c = g;
    if (e->lin[0].second < 0) c = -c;
  }
  if (c == 1) return e;
  return mkScale(e, 1 / c);
}
static void addFactor(std::map<uint32_t, std::pair<E, int>> &f, mpq_class &coef, E e, int ex) {
  if (e->op == CONST) {
    if (ex >= 0) for (int i = 0; i < ex; i++) coef *= e->q;
    else for (int i = 0; i < -ex; i++) coef /= e->q;
    return;
  }
  if (e->op == MON) { for (auto &t : e->mon) addFactor(f, coef, t.first, t.second * ex); return; }
  if (e->op == LIN) {
    mpq_class c; E p = primitive(e, c);
    if (c != 1) {
      if (ex >= 0) for (int i = 0; i < ex; i++) coef *= c;
      else for (int i = 0; i < -ex; i++) coef /= c;
      addFactor(f, coef, p, ex);
      return;
    }
    // common monomial with negative exponents is pulled out by the caller if wanted
  }
  auto &x = f[e->id];
  x.first = e; x.second += ex;
}
static std::unordered_map<E, E> sqrtArg; // root variable -> what it is the root of
static E mulFactors(Sort s, const mpq_class &coef0, std::map<uint32_t, std::pair<E, int>> &f, bool dist) {
  mpq_class coef = coef0;
  if (coef == 0) return mkConst(s, 0);
  if (s == SR && !sqrtArg.empty())
    for (bool again = true; again;) { // squares of roots
      again = false;
      for (auto &x : f) {
        int ex = x.second.second;
        if (ex > -2 && ex < 2) continue;
        auto it = sqrtArg.find(x.second.first);
        if (it == sqrtArg.end()) continue;
        x.second.second = ex % 2;
        addFactor(f, coef, it->second, ex / 2);
        again = true;
        break;
      }
    }
  if (dist) {
    size_t sz = 1; E lin = nullptr; int cnt = 0;
    for (auto &x : f) {
      E b = x.second.first; int ex = x.second.second;
      if (b->op == LIN && ex > 0) {
        size_t k = b->lin.size() + (b->q != 0);
        for (int i = 0; i < ex && sz <= DISTLIMIT; i++) sz *= k;
        cnt += ex; lin = b;
      } else if (ex != 0) cnt++;
    }
    if (lin && cnt > 1 && sz <= DISTLIMIT) {
      auto g = f;
      g[lin->id].second--;
      E r = mkConst(s, 0);
      if (lin->q != 0) { auto g2 = g; r = mkAdd(r, mulFactors(s, coef * lin->q, g2, true)); }
      for (auto &t : lin->lin) {
        auto g2 = g; mpq_class c = coef * t.second;
        addFactor(g2, c, t.first, 1);
        r = mkAdd(r, mulFactors(s, c, g2, true));
      }
      return r;
    }
  }
  return mkScale(mkMon(s, f), coef);
}
E mkMul(E a, E b) {
  if (a->s != b->s) { fprintf(stderr, "mkMul sort mismatch\n"); abort(); }
  if (a->op == CONST) return mkScale(b, a->q);
  if (b->op == CONST) return mkScale(a, b->q);
  std::map<uint32_t, std::pair<E, int>> f; mpq_class c = 1;
  addFactor(f, c, a, 1); addFactor(f, c, b, 1);
  return mulFactors(a->s, c, f, true);
}
E mkPow(E a, int n) {
  if (n == 0) return mkConst(a->s, 1);
  std::map<uint32_t, std::pair<E, int>> f; mpq_class c = 1;
  addFactor(f, c, a, n);
  return mulFactors(a->s, c, f, true);
}
E mkDiv(E a, E b) {
  if (b->op == CONST && b->q != 0) return mkScale(a, 1 / b->q);
  std::map<uint32_t, std::pair<E, int>> f; mpq_class c = 1;
  addFactor(f, c, a, 1); addFactor(f, c, b, -1);
  return mulFactors(a->s, c, f, true);
}
bool expandPoly(E e, E &out, size_t budget) {
  if (e->op == LIN) {
    E r = mkConst(e->s, e->q);
    for (auto &t : e->lin) {
      E x; if (!expandPoly(t.first, x, budget)) return false;
      r = mkAdd(r, mkScale(x, t.second));
      if (r->op == LIN && r->lin.size() > budget) return false;
    }
    out = r; return true;
  }
  if (e->op == MON) {
    E r = mkConst(e->s, 1);
    std::map<uint32_t, std::pair<E, int>> keep; mpq_class kc = 1;
    for (auto &t : e->mon) {
      if (t.second < 0) { addFactor(keep, kc, t.first, t.second); continue; }
      E x; if (!expandPoly(t.first, x, budget)) return false;
      for (int i = 0; i < t.second; i++) {
        // full distribution r*x
        mpq_class cr, cx; const std::vector<std::pair<E, mpq_class>> *tr, *tx; std::vector<std::pair<E, mpq_class>> u1, u2;
        viewLin(r, cr, tr, u1); viewLin(x, cx, tx, u2);
        if ((tr->size() + 1) * (tx->size() + 1) > budget) return false;
        std::map<uint32_t, std::pair<E, mpq_class>> acc; mpq_class c0 = 0;
        auto put = [&](E m, const mpq_class &k) {
          if (m->op == CONST) { c0 += k * m->q; return; }
          if (m->op == LIN) { // single scaled term
            c0 += k * m->q;
            for (auto &z : m->lin) { auto &y = acc[z.first->id]; y.first = z.first; y.second += k * z.second; }
            return;
          }
          auto &y = acc[m->id]; y.first = m; y.second += k;
        };
        auto one = mkConst(e->s, 1);
        auto loop2 = [&](E mr, const mpq_class &kr) {
          if (cx != 0) put(mr, kr * cx);
          for (auto &b : *tx) {
            std::map<uint32_t, std::pair<E, int>> f; mpq_class c = kr * b.second;
            addFactor(f, c, mr, 1); addFactor(f, c, b.first, 1);
            put(mulFactors(e->s, c, f, false), 1);
          }
        };
        if (cr != 0) loop2(one, cr);
        for (auto &a : *tr) loop2(a.first, a.second);
        std::vector<std::pair<E, mpq_class>> v;
        for (auto &y : acc) if (y.second.second != 0) v.push_back(y.second);
        r = mkLin(e->s, c0, std::move(v));
      }
    }
    if (!keep.empty() || kc != 1) {
      mpq_class cr; const std::vector<std::pair<E, mpq_class>> *tr; std::vector<std::pair<E, mpq_class>> u1;
      viewLin(r, cr, tr, u1);
      E o = mkConst(e->s, 0);
      auto addt = [&](E m, const mpq_class &k) {
        auto f = keep; mpq_class c = kc * k;
        addFactor(f, c, m, 1);
        o = mkAdd(o, mulFactors(e->s, c, f, false));
      };
      if (cr != 0) addt(mkConst(e->s, 1), cr);
      auto copy = *tr;
      for (auto &a : copy) addt(a.first, a.second);
      r = o;
    }
    out = r; return true;
  }
  out = e; return true;
}

// ---- comparisons
static bool negExps(E e, std::map<uint32_t, std::pair<E, int>> &neg) {
  auto look = [&](E m) {
    if (m->op == MON)
      for (auto &t : m->mon)
        if (t.second < 0) {
          auto &x = neg[t.first->id];
          x.first = t.first;
          if (-t.second > x.second) x.second = -t.second;
        }
  };
  if (e->op == LIN) for (auto &t : e->lin) look(t.first);
  else look(e);
  return !neg.empty();
}
static E mulTerms(E e, E base, int k) {
  auto one = [&](E m) {
    std::map<uint32_t, std::pair<E, int>> f; mpq_class c = 1;
    addFactor(f, c, m, 1); addFactor(f, c, base, k);
    return mulFactors(e->s, c, f, true);
  };
  if (e->op == LIN) {
    E r = mkScale(mkPow(base, k), e->q);
    for (auto &t : e->lin) r = mkAdd(r, mkScale(one(t.first), t.second));
    return r;
  }
  return one(e);
}
static E clearDen(E e, bool ineq) {
  for (int guard = 0; guard < 8; guard++) {
    std::map<uint32_t, std::pair<E, int>> neg;
    if (e->s != SR || !negExps(e, neg)) break;
    for (auto &x : neg) {
      int k = x.second.second;
      if (ineq && !isPos(x.second.first) && (k & 1)) k++;
      e = mulTerms(e, x.second.first, k);
    }
  }
  // divide by common positive monomials
  if (e->op == LIN && e->q == 0 && e->s == SR) {
    std::map<uint32_t, std::pair<E, int>> common; bool first = true;
    for (auto &t : e->lin) {
      std::map<uint32_t, std::pair<E, int>> f; mpq_class c = 1;
      addFactor(f, c, t.first, 1);
      if (first) { common = f; first = false; }
      else for (auto it = common.begin(); it != common.end();) {
        auto j = f.find(it->first);
        if (j == f.end()) it = common.erase(it);
        else { it->second.second = std::min(it->second.second, j->second.second); ++it; }
      }
    }
    for (auto &x : common)
      if (x.second.second > 0 && isPos(x.second.first)) e = mulTerms(e, x.second.first, -x.second.second);
  } else if (e->op == MON) {
    std::map<uint32_t, std::pair<E, int>> f;
    for (auto &t : e->mon) if (!isPos(t.first)) f[t.first->id] = t;
    e = mkMon(e->s, f);
  }
  return e;
}
static E cmpNode(Op op, E e) {
  Node n; n.op = op; n.s = SB; n.ch = {e};
  return intern(std::move(n));
}
E mkNeqRaw(E a, E b) { Node n; n.op = NEQ2; n.s = SB; n.ch = {a, b}; return intern(std::move(n)); }
static E singleIte(E e, mpq_class &k) {
  if (e->op == ITE) { k = 1; return e; }
  if (e->op == LIN && e->lin.size() == 1 && e->lin[0].first->op == ITE) { k = e->lin[0].second; return e->lin[0].first; }
  return nullptr;
}
static E mkCmp0(Op op, E e) {
  if (e->op == CONST) return mkBool(op == LE0 ? e->q <= 0 : op == LT0 ? e->q < 0 : e->q == 0);
  if (e->s == SI) {
    if (op == LT0) { return mkCmp0(LE0, mkAdd(e, mkInt(1))); }
    if (op == LE0) {
      if (e->iv.hh && e->iv.hi <= 0) return mkBool(true);
      if (e->iv.hl && e->iv.lo > 0) return mkBool(false);
    } else {
      if ((e->iv.hh && e->iv.hi < 0) || (e->iv.hl && e->iv.lo > 0)) return mkBool(false);
    }
  } else {
    e = clearDen(e, op != EQ0);
    if (e->op == CONST) return mkCmp0(op, e);
    if (isPos(e)) return mkBool(false);
    if (op == LT0 && isNonneg(e)) return mkBool(false);
    E ne = mkScale(e, -1);
    if (isPos(ne)) return mkBool(op != EQ0);
    if (op == LE0 && isNonneg(ne)) return mkBool(true);
    // pure TOREAL combination -> Int comparison
    bool allInt = true; mpz_class den = e->op == LIN ? e->q.get_den() : mpz_class(1);
    auto chk = [&](E t) { if (t->op != TOREAL) allInt = false; };
    if (e->op == LIN) for (auto &t : e->lin) { chk(t.first); den = lcm(den, t.second.get_den()); }
    else chk(e);
    if (allInt) {
      E r;
      if (e->op == LIN) {
        r = mkInt(mpq_class(e->q * den).get_num());
        for (auto &t : e->lin) r = mkAdd(r, mkScale(t.first->ch[0], mpq_class(t.second * den)));
      } else r = e->ch[0];
      return mkCmp0(op, r);
    }
  }
  mpq_class k;
  if (E it = singleIte(e, k)) {
    if (isC(it->ch[1]) || isC(it->ch[2])) {
      mpq_class c0 = e->op == LIN ? e->q : mpq_class(0);
      E a = mkCmp0(op, mkAdd(mkScale(it->ch[1], k), mkConst(e->s, c0)));
      E b = mkCmp0(op, mkAdd(mkScale(it->ch[2], k), mkConst(e->s, c0)));
      return mkIte(it->ch[0], a, b);
    }
  }
  // canonical scaling
  if (e->op == LIN) {
    if (e->s == SI) {
      mpz_class g = 0;
      for (auto &t : e->lin) g = gcd(g, abs(t.second.get_num()));
      if (op == EQ0) {
        if (e->lin[0].second < 0) g = -g;
        if (e->q.get_num() % g != 0) return mkBool(false);
        if (g != 1) e = mkScale(e, mpq_class(1, 1) / mpq_class(g));
      } else if (g != 1) {
        // g*t + c <= 0  <=>  t <= floor(-c/g)  <=> t + ceil(c/g) <= 0
        mpz_class c = e->q.get_num(), cc;
        mpz_cdiv_q(cc.get_mpz_t(), c.get_mpz_t(), g.get_mpz_t());
        auto t = e->lin;
        for (auto &x : t) x.second /= mpq_class(g);
        E r = mkConst(SI, cc);
        for (auto &x : t) r = mkAdd(r, mkScale(x.first, x.second));
        e = r;
      }
    } else {
      mpq_class l = e->lin[0].second;
      if (op != EQ0) l = abs(l);
      if (l != 1) e = mkScale(e, 1 / l);
    }
  }
  if (e->op == CONST) return mkCmp0(op, e);
  return cmpNode(op, e);
}
E mkLe(E a, E b) { return mkCmp0(LE0, mkSub(a, b)); }
E mkLt(E a, E b) { return mkCmp0(LT0, mkSub(a, b)); }
E mkEq(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->s == SB) return mkIte(a, b, mkNot(b));
  return mkCmp0(EQ0, mkSub(a, b));
}
E mkNot(E a) {
  switch (a->op) {
  case CONST: return mkBool(a->q == 0);
  case NOT: return a->ch[0];
  case LE0: // not(e<=0) = -e<0
    return mkCmp0(LT0, mkScale(a->ch[0], -1));
  case LT0: return mkCmp0(LE0, mkScale(a->ch[0], -1));
  case AND: { E r = mkBool(false); for (auto c : a->ch) r = mkOr(r, mkNot(c)); return r; }
  case OR: { E r = mkBool(true); for (auto c : a->ch) r = mkAnd(r, mkNot(c)); return r; }
  default: { Node n; n.op = NOT; n.s = SB; n.ch = {a}; return intern(std::move(n)); }
  }
}
static E nary(Op op, E a, E b) {
  std::vector<E> v;
  auto push = [&](E e) { if (e->op == op) v.insert(v.end(), e->ch.begin(), e->ch.end()); else v.push_back(e); };
  push(a); push(b);
  std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.size() == 1) return v[0];
  if (v.size() < 40)
    for (auto x : v) {
      if (x->op == NOT || x->op == VAR || x->op == LE0 || x->op == LT0 || x->op == EQ0) {
        E nx = mkNot(x);
        if (std::binary_search(v.begin(), v.end(), nx, [](E p, E q) { return p->id < q->id; })) return mkBool(op == OR);
      }
    }
  Node n; n.op = op; n.s = SB; n.ch = v;
  return intern(std::move(n));
}
E mkAnd(E a, E b) {
  if (isFalse(a) || isFalse(b)) return mkBool(false);
  if (isTrue(a)) return b;
  if (isTrue(b)) return a;
  return nary(AND, a, b);
}
E mkOr(E a, E b) {
  if (isTrue(a) || isTrue(b)) return mkBool(true);
  if (isFalse(a)) return b;
  if (isFalse(b)) return a;
  return nary(OR, a, b);
}
E mkIte(E c, E a, E b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->s != b->s) { fprintf(stderr, "mkIte sort mismatch %d %d\n", a->s, b->s); abort(); }
  if (a->s == SB) {
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
    return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
  }
  if (c->op == NOT) return mkIte(c->ch[0], b, a);
  if (a->op == ITE && a->ch[0] == c) a = a->ch[1];
  if (b->op == ITE && b->ch[0] == c) b = b->ch[2];
  if (a == b) return a;
  Node n; n.op = ITE; n.s = a->s; n.ch = {c, a, b};
  return intern(std::move(n));
}
E mkToReal(E a) {
  if (a->op == CONST) return mkReal(a->q);
  if (a->op == LIN) {
    E r = mkReal(a->q);
    for (auto &t : a->lin) r = mkAdd(r, mkScale(mkToReal(t.first), t.second));
    return r;
  }
  if (a->op == MON) {
    E r = mkReal(1);
    for (auto &t : a->mon) r = mkMul(r, mkPow(mkToReal(t.first), t.second));
    return r;
  }
  if (a->op == ITE) return mkIte(a->ch[0], mkToReal(a->ch[1]), mkToReal(a->ch[2]));
  Node n; n.op = TOREAL; n.s = SR; n.ch = {a};
  return intern(std::move(n));
}
static std::unordered_map<E, E> floorMemo, sqrtMemo;
static std::map<std::pair<E, std::string>, E> divMemo;
static E rangeAx(E v, const mpz_class &lo, const mpz_class &hi) {
  // emitted without interval simplification
  Node a; a.op = LE0; a.s = SB; a.ch = {mkSub(mkInt(lo), v)};
  Node b; b.op = LE0; b.s = SB; b.ch = {mkSub(v, mkInt(hi))};
  return mkAnd(intern(std::move(a)), intern(std::move(b)));
}
static std::unordered_map<E, mpz_class> sqrtFloor; // integer part of the square root of a constant
E mkFloor(E r) {
  { auto sf = sqrtFloor.find(r); if (sf != sqrtFloor.end()) return mkInt(sf->second); }
  if (r->op == CONST) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), r->q.get_num_mpz_t(), r->q.get_den_mpz_t()); return mkInt(z); }
  if (r->op == TOREAL) return r->ch[0];
  if (r->op == ITE) return mkIte(r->ch[0], mkFloor(r->ch[1]), mkFloor(r->ch[2]));
  if (r->op == LIN) {
    E ip = mkInt(0), rest = mkReal(0);
    mpz_class fz; mpz_fdiv_q(fz.get_mpz_t(), r->q.get_num_mpz_t(), r->q.get_den_mpz_t());
    ip = mkInt(fz); rest = mkReal(r->q - mpq_class(fz));
    for (auto &t : r->lin) {
      if (t.first->op == TOREAL && t.second.get_den() == 1) ip = mkAdd(ip, mkScale(t.first->ch[0], t.second));
      else rest = mkAdd(rest, mkScale(t.first, t.second));
    }
    if (rest != r) return mkAdd(ip, mkFloor(rest));
  }
  auto it = floorMemo.find(r);
  if (it != floorMemo.end()) return it->second;
  mpz_class lo("-2147483648"), hi("2147483647");
  E v = mkVarIv("fl!" + std::to_string(floorMemo.size()), &lo, &hi);
  E tv = mkToReal(v);
  v->axiom = mkAnd(mkAnd(mkLe(tv, r), mkLt(r, mkAdd(tv, mkReal(1)))), rangeAx(v, lo, hi));
  floorMemo[r] = v;
  return v;
}
E mkTrunc(E r) {
  if (isNonneg(r)) return mkFloor(r);
  if (r->op == CONST) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), r->q.get_num_mpz_t(), r->q.get_den_mpz_t()); return mkInt(z); }
  if (r->op == TOREAL) return r->ch[0];
  if (r->op == ITE) return mkIte(r->ch[0], mkTrunc(r->ch[1]), mkTrunc(r->ch[2]));
  bool allInt = r->op == LIN && r->q.get_den() == 1;
  if (allInt) for (auto &t : r->lin) if (t.first->op != TOREAL || t.second.get_den() != 1) allInt = false;
  if (allInt) return mkFloor(r);
  return mkIte(mkLe(mkReal(0), r), mkFloor(r), mkScale(mkFloor(mkScale(r, -1)), -1));
}
E mkFloorDiv(E a, const mpz_class &c) {
  if (c == 1) return a;
  if (a->op == CONST) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), a->q.get_num_mpz_t(), c.get_mpz_t()); return mkInt(z); }
  if (a->op == LIN) { // pull out multiples of c
    E out = mkInt(0), rest = mkInt(0);
    mpz_class q0; mpz_fdiv_q(q0.get_mpz_t(), a->q.get_num_mpz_t(), c.get_mpz_t());
    out = mkInt(q0); rest = mkInt(a->q.get_num() - q0 * c);
    for (auto &t : a->lin) {
      if (t.second.get_num() % c == 0) out = mkAdd(out, mkScale(t.first, t.second / mpq_class(c)));
      else rest = mkAdd(rest, mkScale(t.first, t.second));
    }
    if (rest != a) return mkAdd(out, mkFloorDiv(rest, c));
  }
  if (a->iv.hl && a->iv.hh && a->iv.lo >= 0 && a->iv.hi < c) return mkInt(0);
  auto key = std::make_pair(a, c.get_str());
  auto it = divMemo.find(key);
  if (it != divMemo.end()) return it->second;
  mpz_class lo, hi; mpz_class *pl = nullptr, *ph = nullptr;
  if (a->iv.hl) { mpz_fdiv_q(lo.get_mpz_t(), a->iv.lo.get_mpz_t(), c.get_mpz_t()); pl = &lo; }
  if (a->iv.hh) { mpz_fdiv_q(hi.get_mpz_t(), a->iv.hi.get_mpz_t(), c.get_mpz_t()); ph = &hi; }
  E v = mkVarIv("dv!" + std::to_string(divMemo.size()), pl, ph);
  E cv = mkScale(v, mpq_class(c));
  Node n1; n1.op = LE0; n1.s = SB; n1.ch = {mkSub(cv, a)};
  Node n2; n2.op = LE0; n2.s = SB; n2.ch = {mkSub(mkSub(a, cv), mkInt(c - 1))};
  v->axiom = mkAnd(intern(std::move(n1)), intern(std::move(n2)));
  divMemo[key] = v;
  return v;
}
E mkTruncDiv(E a, const mpz_class &c) {
  if (isNonneg(a)) return mkFloorDiv(a, c);
  if (a->op == CONST) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), a->q.get_num_mpz_t(), c.get_mpz_t()); return mkInt(z); }
  return mkIte(mkLe(mkInt(0), a), mkFloorDiv(a, c), mkScale(mkFloorDiv(mkScale(a, -1), c), -1));
}
E mkTruncDivE(E a, E b) {
  if (b->op == CONST) { if (b->q > 0) return mkTruncDiv(a, b->q.get_num()); return mkScale(mkTruncDiv(a, -b->q.get_num()), -1); }
  auto key = std::make_pair(a, "/" + std::to_string(b->id));
  auto it = divMemo.find(key);
  if (it != divMemo.end()) return it->second;
  bool nn = isNonneg(a) && isPos(b);
  mpz_class lo = 0; mpz_class hi; mpz_class *ph = nullptr;
  if (nn && a->iv.hh) { hi = a->iv.hi; ph = &hi; }
  E v = mkVarIv("dv!" + std::to_string(divMemo.size()), nn ? &lo : nullptr, ph);
  E r = mkSub(a, mkMul(v, b)); // remainder
  E absb = isPos(b) ? b : mkIte(mkLe(mkInt(0), b), b, mkScale(b, -1));
  E posr = mkAnd(cmpNode(LE0, mkScale(r, -1)), cmpNode(LE0, mkAdd(mkSub(r, absb), mkInt(1))));
  E negr = mkAnd(cmpNode(LE0, r), cmpNode(LE0, mkAdd(mkSub(mkScale(r, -1), absb), mkInt(1))));
  v->axiom = isNonneg(a) ? posr : mkIte(mkLe(mkInt(0), a), posr, negr);
  if (nn) v->axiom = mkAnd(v->axiom, cmpNode(LE0, mkScale(v, -1)));
  divMemo[key] = v;
  return v;
}
E mkSqrt(E a) {
  if (a->op == CONST && a->q >= 0) {
    mpz_class n = sqrt(a->q.get_num()), d = sqrt(a->q.get_den());
    if (n * n == a->q.get_num() && d * d == a->q.get_den()) return mkReal(mpq_class(n, d));
  }
  // perfect squares of known-sign monomials
  if (a->op == MON) {
    bool sq = true;
    for (auto &t : a->mon) if (t.second % 2 != 0 || !isNonneg(t.first)) sq = false;
    if (sq) { E r = mkReal(1); for (auto &t : a->mon) r = mkMul(r, mkPow(t.first, t.second / 2)); return r; }
  }
  auto it = sqrtMemo.find(a);
  if (it != sqrtMemo.end()) return it->second;
  // the expanded square of a sum
  if (a->op == LIN && a->lin.size() >= 2 && a->lin.size() <= 40) {
    auto rootq = [](const mpq_class &q, mpq_class &r) {
      if (q < 0) return false;
      mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
      r = mpq_class(n, d);
      return n * n == q.get_num() && d * d == q.get_den();
    };
    std::vector<E> roots;
    bool ok = true;
    mpq_class r;
    if (a->q != 0) { ok = rootq(a->q, r); if (ok) roots.push_back(mkReal(r)); }
    for (auto &t : a->lin) {
      if (t.first->op != MON) continue;
      bool sq = true;
      for (auto &m : t.first->mon) if (m.second % 2 != 0) sq = false;
      if (!sq || !rootq(t.second, r)) continue;
      E m = mkReal(r);
      for (auto &x : t.first->mon) m = mkMul(m, mkPow(x.first, x.second / 2));
      roots.push_back(m);
    }
    if (ok && roots.size() >= 2 && roots.size() <= 5)
      for (unsigned sg = 0; sg < (1u << (roots.size() - 1)); sg++) {
        E c = roots[0];
        for (size_t i = 1; i < roots.size(); i++) c = mkAdd(c, (sg >> (i - 1)) & 1 ? mkScale(roots[i], -1) : roots[i]);
        if (c->op != LIN) continue;
        E p = mkSub(mkMul(c, c), a), x;
        bool same = p->op == CONST && p->q == 0;
        if (!same && expandPoly(p, x, 2000)) same = x->op == CONST && x->q == 0;
        if (!same) continue;
        if (isNonneg(c)) return c;
        E m = mkScale(c, -1);
        if (isNonneg(m)) return m;
        return mkIte(mkLe(mkReal(0), c), c, m);
      }
  }
  E v = mkVar(SR, "sq!" + std::to_string(sqrtMemo.size()));
  v->nonneg = true;
  if (isPos(a)) v->pos = true;
  Node n1; n1.op = LE0; n1.s = SB; n1.ch = {mkScale(v, -1)};
  E eqa = clearDen(mkSub(mkMul(v, v), a), false);
  v->axiom = mkAnd(intern(std::move(n1)), cmpNode(EQ0, eqa));
  sqrtMemo[a] = v;
  sqrtArg[v] = a;
  if (a->op == CONST && a->q >= 0) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), a->q.get_num_mpz_t(), a->q.get_den_mpz_t()); sqrtFloor[v] = sqrt(z); }
  return v;
}
E mkUF(const std::string &fn, const std::vector<E> &args) {
  static std::map<std::pair<std::string, std::vector<E>>, E> memo;
  auto key = std::make_pair(fn, args);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  E v = mkVar(SR, fn + "!" + std::to_string(memo.size()));
  memo[key] = v;
  return v;
}

// ---- traversal / printing
template <class F> static void kids(E e, F f) {
  for (auto &t : e->lin) f(t.first);
  for (auto &t : e->mon) f(t.first);
  for (auto c : e->ch) f(c);
}
E roundCoefs(E e) {
  auto rd = [](const mpq_class &q) { return q.get_den() == 1 ? q : mpq_class(q.get_d()); };
  if (e->s != SR) return e;
  if (e->op == CONST) return mkReal(rd(e->q));
  if (e->op != LIN) return e;
  std::vector<std::pair<E, mpq_class>> t;
  for (auto &x : e->lin) { mpq_class q = rd(x.second); if (q != 0) t.push_back({x.first, q}); }
  return mkLin(SR, rd(e->q), std::move(t));
}
void collectDivisors(E e, std::unordered_set<E> &out) {
  std::vector<E> st{e};
  std::unordered_set<E> seen;
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    for (auto &t : x->mon) if (t.second < 0) out.insert(t.first);
    kids(x, [&](E c) { st.push_back(c); });
  }
}
static std::unordered_map<E, std::vector<E>> varsMemo;
void collectVars(E e, std::unordered_set<E> &vars, std::unordered_set<E> &seen) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == VAR) { vars.insert(x); if (x->axiom) st.push_back(x->axiom); }
    kids(x, [&](E c) { st.push_back(c); });
  }
}
const std::vector<E> &varsOf(E e) {
  auto it = varsMemo.find(e);
  if (it != varsMemo.end()) return it->second;
  std::unordered_set<E> v, s;
  collectVars(e, v, s);
  return varsMemo[e] = std::vector<E>(v.begin(), v.end());
}
std::string smtName(E v) { return "|" + v->name + "|"; }
std::string qstr(const mpq_class &q, bool real) {
  std::string r;
  mpq_class a = abs(q);
  if (real) r = a.get_den() == 1 ? a.get_num().get_str() + ".0" : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
  else r = a.get_num().get_str();
  if (q < 0) r = "(- " + r + ")";
  return r;
}
bool smtNonlinear = false;
namespace {
struct Printer {
  std::unordered_map<E, int> refs;
  std::unordered_map<E, std::string> named;
  std::ostringstream os;
  void count(E e) {
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back(); st.pop_back();
      if (++refs[x] > 1) continue;
      kids(x, [&](E c) { st.push_back(c); });
    }
  }
  std::string body(E e) {
    bool R = e->s == SR;
    switch (e->op) {
    case CONST: return e->s == SB ? (e->q == 1 ? "true" : "false") : qstr(e->q, R);
    case VAR: return smtName(e);
    case LIN: {
      std::string s = "(+";
      int n = 0;
      if (e->q != 0) { s += " " + qstr(e->q, R); n++; }
      for (auto &t : e->lin) {
        n++;
        if (t.second == 1) s += " " + pr(t.first);
        else s += " (* " + qstr(t.second, R) + " " + pr(t.first) + ")";
      }
      if (n == 1) return s.substr(3);
      return s + ")";
    }
    case MON: {
      smtNonlinear = true;
      std::string num, den; int nn = 0, nd = 0;
      for (auto &t : e->mon) {
        std::string p = pr(t.first);
        for (int i = 0; i < t.second; i++) { num += " " + p; nn++; }
        for (int i = 0; i < -t.second; i++) { den += " " + p; nd++; }
      }
      std::string N = nn == 0 ? "1.0" : nn == 1 ? num.substr(1) : "(*" + num + ")";
      if (!nd) return N;
      std::string D = nd == 1 ? den.substr(1) : "(*" + den + ")";
      return "(/ " + N + " " + D + ")";
    }
    case ITE: return "(ite " + pr(e->ch[0]) + " " + pr(e->ch[1]) + " " + pr(e->ch[2]) + ")";
    case TOREAL: return "(to_real " + pr(e->ch[0]) + ")";
    case NOT: return "(not " + pr(e->ch[0]) + ")";
    case AND: case OR: {
      std::string s = e->op == AND ? "(and" : "(or";
      for (auto c : e->ch) s += " " + pr(c);
      return s + ")";
    }
    case LE0: return "(<= " + pr(e->ch[0]) + (e->ch[0]->s == SR ? " 0.0)" : " 0)");
    case LT0: return "(< " + pr(e->ch[0]) + (e->ch[0]->s == SR ? " 0.0)" : " 0)");
    case NEQ2: return "(not (= " + pr(e->ch[0]) + " " + pr(e->ch[1]) + "))";
    case EQ0: return "(= " + pr(e->ch[0]) + (e->ch[0]->s == SR ? " 0.0)" : " 0)");
    }
    return "?";
  }
  std::string pr(E e) {
    if (e->op == CONST || e->op == VAR) return body(e);
    auto it = named.find(e);
    if (it != named.end()) return it->second;
    if (refs[e] > 1) {
      std::string b = body(e);
      std::string n = "n" + std::to_string(e->id);
      os << "(define-fun " << n << " () " << (e->s == SB ? "Bool" : e->s == SI ? "Int" : "Real") << " " << b << ")\n";
      named[e] = n;
      return n;
    }
    return body(e);
  }
};
}
std::string toSMT(const std::vector<E> &conj0, std::vector<E> &varsOut) {
  smtNonlinear = false;
  std::unordered_set<E> vars, seen;
  for (auto c : conj0) collectVars(c, vars, seen);
  std::vector<E> vs(vars.begin(), vars.end());
  std::sort(vs.begin(), vs.end(), [](E a, E b) { return a->id < b->id; });
  varsOut = vs;
  Printer p;
  std::ostringstream decl;
  std::vector<E> conj = conj0;
  for (auto v : vs) {
    decl << "(declare-const " << smtName(v) << " " << (v->s == SB ? "Bool" : v->s == SI ? "Int" : "Real") << ")\n";
    if (v->axiom) conj.push_back(v->axiom);
  }
  for (auto c : conj) p.count(c);
  std::string asserts;
  for (auto v : vs) if (v->s == SI && !v->axiom) {
    if (v->iv.hl) asserts += "(assert (<= " + qstr(mpq_class(v->iv.lo), false) + " " + smtName(v) + "))\n";
    if (v->iv.hh) asserts += "(assert (<= " + smtName(v) + " " + qstr(mpq_class(v->iv.hi), false) + "))\n";
  }
  for (auto c : conj) { std::string s = p.pr(c); p.os << "(assert " << s << ")\n"; }
  return decl.str() + p.os.str() + asserts;
}
bool evalE(E e, const std::unordered_map<E, mpq_class> &m, std::unordered_map<E, mpq_class> &memo, mpq_class &out) {
  if (e->op == CONST) { out = e->q; return true; }
  auto it = memo.find(e);
  if (it != memo.end()) { out = it->second; return true; }
  mpq_class r, x;
  switch (e->op) {
  case VAR: { auto j = m.find(e); if (j == m.end()) return false; r = j->second; break; }
  case LIN:
    r = e->q;
    for (auto &t : e->lin) { if (!evalE(t.first, m, memo, x)) return false; r += t.second * x; }
    break;
  case MON:
    r = 1;
    for (auto &t : e->mon) {
      if (!evalE(t.first, m, memo, x)) return false;
      if (t.second < 0 && x == 0) return false;
      for (int i = 0; i < t.second; i++) r *= x;
      for (int i = 0; i < -t.second; i++) r /= x;
    }
    break;
  case ITE:
    if (!evalE(e->ch[0], m, memo, x)) return false;
    if (!evalE(e->ch[x != 0 ? 1 : 2], m, memo, r)) return false;
    break;
  case TOREAL: if (!evalE(e->ch[0], m, memo, r)) return false; break;
  case NOT: if (!evalE(e->ch[0], m, memo, x)) return false; r = x == 0 ? 1 : 0; break;
  case AND: r = 1; for (auto c : e->ch) { if (!evalE(c, m, memo, x)) return false; if (x == 0) { r = 0; break; } } break;
  case OR: r = 0; for (auto c : e->ch) { if (!evalE(c, m, memo, x)) return false; if (x != 0) { r = 1; break; } } break;
  case LE0: if (!evalE(e->ch[0], m, memo, x)) return false; r = x <= 0 ? 1 : 0; break;
  case LT0: if (!evalE(e->ch[0], m, memo, x)) return false; r = x < 0 ? 1 : 0; break;
  case EQ0: if (!evalE(e->ch[0], m, memo, x)) return false; r = x == 0 ? 1 : 0; break;
  default: return false;
  }
  memo[e] = r; out = r; return true;
}
E substE(E e, const std::unordered_map<E, E> &sub, std::unordered_map<E, E> &memo) {
  if (e->op == CONST) return e;
  auto s = sub.find(e);
  if (s != sub.end()) return s->second;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  switch (e->op) {
  case VAR: break;
  case LIN: r = e->s == SI ? mkInt(e->q.get_num()) : mkReal(e->q);
    for (auto &t : e->lin) r = mkAdd(r, mkScale(substE(t.first, sub, memo), t.second));
    break;
  case MON: r = e->s == SI ? mkInt(1) : mkReal(1);
    for (auto &t : e->mon) r = mkMul(r, mkPow(substE(t.first, sub, memo), t.second));
    break;
  case ITE: r = mkIte(substE(e->ch[0], sub, memo), substE(e->ch[1], sub, memo), substE(e->ch[2], sub, memo)); break;
  case TOREAL: r = mkToReal(substE(e->ch[0], sub, memo)); break;
  case NOT: r = mkNot(substE(e->ch[0], sub, memo)); break;
  case AND: r = mkBool(true); for (auto c : e->ch) r = mkAnd(r, substE(c, sub, memo)); break;
  case OR: r = mkBool(false); for (auto c : e->ch) r = mkOr(r, substE(c, sub, memo)); break;
  case LE0: r = mkCmp0(LE0, substE(e->ch[0], sub, memo)); break;
  case LT0: r = mkCmp0(LT0, substE(e->ch[0], sub, memo)); break;
  case EQ0: r = mkCmp0(EQ0, substE(e->ch[0], sub, memo)); break;
  default: break;
  }
  memo[e] = r;
  return r;
}

std::map<std::pair<E, E>, E> diffRules;
static bool diffRec(E e, E x, std::unordered_map<E, E> &memo, E &out) {
  if (e == x) { out = mkReal(1); return true; }
  if (e->op == CONST) { out = mkReal(0); return true; }
  auto it = memo.find(e);
  if (it != memo.end()) { out = it->second; return true; }
  E r = nullptr;
  if (e->op == VAR) {
    auto rule = diffRules.find({e, x});
    if (rule != diffRules.end()) { out = rule->second; return true; }
    r = mkReal(0);
    for (auto &q : sqrtMemo)
      if (q.second == e) { // d sqrt(a) = a' / (2 sqrt(a))
        E d; if (!diffRec(q.first, x, memo, d)) return false;
        r = mkScale(mkMul(d, mkPow(e, -1)), mpq_class(1, 2));
        break;
      }
    if (e->axiom && isC(r)) { // defined from x in a way this does not follow
      const auto &vs = varsOf(e);
      for (auto v : vs) if (v == x) return false;
    }
  } else if (e->op == LIN) {
    r = mkReal(0);
    for (auto &t : e->lin) { E d; if (!diffRec(t.first, x, memo, d)) return false; r = mkAdd(r, mkScale(d, t.second)); }
  } else if (e->op == MON) {
    r = mkReal(0);
    for (auto &t : e->mon) {
      E d; if (!diffRec(t.first, x, memo, d)) return false;
      if (isC(d) && d->q == 0) continue;
      // e / t * k * t'
      E m = mkMul(e, mkPow(t.first, -1));
      r = mkAdd(r, mkScale(mkMul(m, d), mpq_class(t.second)));
    }
  } else if (e->op == ITE) {
    E a, b;
    if (!diffRec(e->ch[1], x, memo, a) || !diffRec(e->ch[2], x, memo, b)) return false;
    r = mkIte(e->ch[0], a, b);
  } else return false;
  memo[e] = r;
  out = r;
  return true;
}
bool diffE(E e, E x, E &out) {
  if (x->op != VAR || x->s != SR) return false;
  std::unordered_map<E, E> memo;
  return diffRec(e, x, memo, out);
}
