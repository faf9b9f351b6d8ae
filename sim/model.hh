// Reference model: naive polynomials over Q on GMP's own C++ classes (independent of CLPoly).
#pragma once
#include <gmpxx.h>
#include <array>
#include <map>
#include <string>
#include <vector>
#include <cstdint>
#include "sim.hh"

namespace model {
static const int NV = 6;
typedef std::array<int, NV> Mono;
struct MP {
    std::map<Mono, mpq_class> t;
    bool zero() const { return t.empty(); }
    bool constant() const { return t.empty() || (t.size() == 1 && t.begin()->first == Mono{}); }
};
bool operator==(const MP& a, const MP& b);
inline bool operator!=(const MP& a, const MP& b) { return !(a == b); }
bool operator<(const MP& a, const MP& b);
MP parse(const std::string& s);            // "c@e0.e1,c@e0" ; "" is zero
std::string text(const MP& p);             // lex-descending
MP cst(const mpq_class& c);
MP var(int i, int e = 1);
MP add(const MP& a, const MP& b);
MP sub(const MP& a, const MP& b);
MP mul(const MP& a, const MP& b);
MP neg(const MP& a);
MP scale(const MP& a, const mpq_class& c);
MP pow(const MP& a, unsigned n);
bool divexact(const MP& a, const MP& b, MP& q);   // over Q
MP deriv(const MP& a, int v);
int deg(const MP& a, int v);
int tdeg(const MP& a);
bool uses(const MP& a, int v);
MP coef(const MP& a, int v, int k);
MP subst(const MP& a, int v, const mpq_class& c);
mpz_class icontent(const MP& a);           // gcd of integer coefficients (positive); 0 for zero
bool integral(const MP& a);
MP primitive(const MP& a);                 // integral, content 1, lex-leading coefficient positive
mpz_class maxnorm(const MP& a);
bool coprime(const MP& a, const MP& b, uint64_t seed);      // over Q
bool squarefree(const MP& a, uint64_t seed);
bool irreducible(const MP& a, uint64_t seed);               // certificate: false = not certified
int ureducible(const MP& a, int v, size_t maxdeg);          // 1 reducible over Q, 0 irreducible, -1 undecided
MP random_poly(sim::Rng& r, int nv, int maxdeg, int terms, int64_t cmax);
MP monic(const MP& a);                     // lex-leading coefficient 1

// rational univariate real-root reference (Sturm)
typedef std::vector<mpq_class> UP;         // ascending coefficients, no trailing zero
UP up(const MP& a, int v);
void trim(UP& a);
UP udiv(const UP& a, const UP& b, UP& r);
UP ugcd(UP a, UP b);
UP uderiv(const UP& a);
mpq_class ueval(const UP& a, const mpq_class& x);
int usgn(const UP& a, const mpq_class& x);
struct Sturm { std::vector<UP> s; std::vector<std::vector<mpz_class>> z; explicit Sturm(const UP& a); int var_at(const mpq_class& x) const; int var_inf(bool pos) const; int roots(const mpq_class& a, const mpq_class& b) const; /* in (a,b] */ int total() const; };

// Groebner reference over Q
enum Order { LEX, GRLEX };
bool mless(const Mono& a, const Mono& b, Order o);          // a < b
Mono lead(const MP& a, Order o);
MP nf(MP f, const std::vector<MP>& G, Order o);
std::vector<MP> buchberger(std::vector<MP> F, Order o, size_t limit);   // reduced, monic; empty + limit hit -> throws
}
