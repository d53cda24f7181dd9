// Expressions: hash-consed DAG over Bool / Int / Real with light algebraic
// normalisation (linear combinations, monomials with integer exponents).
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <set>

enum Sort : uint8_t { SB, SI, SR };
enum Op : uint8_t { CONST, VAR, LIN, MON, ITE, TOREAL, NOT, AND, OR, LE0, LT0, EQ0, NEQ2 };

struct Node;
typedef const Node *E;

struct Iv {
  bool hl = false, hh = false;
  mpz_class lo, hi;
};

struct Node {
  Op op;
  Sort s;
  uint32_t id = 0;
  mpq_class q;                                  // CONST value, LIN constant
  std::vector<std::pair<E, mpq_class>> lin;     // LIN terms
  std::vector<std::pair<E, int>> mon;           // MON factors
  std::vector<E> ch;                            // others
  std::string name;                             // VAR
  mutable E axiom = nullptr;                    // VAR: defining constraint
  mutable bool pos = false;                     // known > 0
  mutable bool nonneg = false;                  // known >= 0
  Iv iv;
  size_t hash = 0;
};

E mkBool(bool b);
E mkInt(const mpz_class &z);
E mkReal(const mpq_class &q);
E mkVar(Sort s, const std::string &name);       // by name, unique
E mkVarIv(const std::string &name, const mpz_class *lo, const mpz_class *hi);
E findVar(const std::string &name);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkScale(E a, const mpq_class &c);
E mkMul(E a, E b);
E mkPow(E a, int n);                            // n may be negative for reals
E mkDiv(E a, E b);                              // reals
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkLe(E a, E b);
E mkLt(E a, E b);
E mkEq(E a, E b);
E mkNeqRaw(E a, E b);                           // not simplified
E mkToReal(E a);
E mkFloor(E r);                                 // Real -> Int
E mkTrunc(E r);                                 // Real -> Int (towards zero)
E mkFloorDiv(E a, const mpz_class &c);          // Int, c>0
E mkTruncDiv(E a, const mpz_class &c);          // Int, c>0
E mkTruncDivE(E a, E b);                        // Int general
E mkSqrt(E a);
E mkUF(const std::string &fn, const std::vector<E> &args); // memoised opaque value
bool expandPoly(E e, E &out, size_t budget);    // distribute products
inline bool isC(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->s == SB && e->q == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->s == SB && e->q == 0; }
bool isPos(E e);
bool isNonneg(E e);
E roundCoefs(E e); // coefficients to the precision of a double
void collectDivisors(E e, std::unordered_set<E> &out);
void collectVars(E e, std::unordered_set<E> &vars, std::unordered_set<E> &seen);
const std::vector<E> &varsOf(E e);              // transitive through axioms
std::string smtName(E v);
std::string qstr(const mpq_class &q, bool real);
// prints declarations + asserts for a conjunction; smtNonlinear: a product was printed
extern bool smtNonlinear;
std::string toSMT(const std::vector<E> &conj, std::vector<E> &varsOut);
// rational evaluation with total model (defaults 0); returns false if undefined
bool evalE(E e, const std::unordered_map<E, mpq_class> &m, std::unordered_map<E, mpq_class> &memo, mpq_class &out);
size_t nodeCount();
extern std::map<std::pair<E, E>, E> diffRules;   // (y, x) -> dy/dx for variables
bool diffE(E e, E x, E &out);                   // derivative with respect to the variable x
E substE(E e, const std::unordered_map<E, E> &sub, std::unordered_map<E, E> &memo);
