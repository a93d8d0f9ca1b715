// symir: expression DAG, exact real polynomials, solver interface.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>

enum Sort : uint8_t { S_BOOL, S_BV, S_REAL };
enum Kind : uint8_t {
  K_CONST, K_VAR,
  // BV
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
  // Bool
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT, K_BAND, K_BOR, K_BXOR,
  K_RLT0, K_RLE0, K_REQ0,   // poly < 0, <= 0, == 0
  // Real
  K_POLY,                   // polynomial over atoms
  K_RVAR, K_RFROMINT, K_RDIV, K_RFLOOR, K_RUF, K_RITE, // atoms
  K_RTOINT                  // BV of width w: truncation of a real
};

struct Expr;
struct Lin;
struct Poly { std::vector<std::pair<uint32_t, mpq_class>> t; }; // sorted by monomial id; id 0 = 1

struct Expr {
  Kind k; Sort s; uint16_t w; uint32_t id;
  Expr *a, *b, *c;
  uint64_t cv;           // constant / extract low bit / var index
  int64_t smin, smax;    // signed range (BV, w<=64)
  Poly* p;               // K_POLY
  void* z; uint32_t zg;   // Z3_ast and the encoding generation it belongs to
  uint32_t gen; uint64_t ev; // evaluation memo
  bool undef;            // depends on an uninitialised read
  Lin* lin;              // BV: integer linear form (memo)
};

struct VarInfo { Expr* e; std::string name; Sort s; int w; int64_t lo, hi; bool undef; bool isreal_int; };
extern std::vector<VarInfo> vars;

extern Expr *E_TRUE, *E_FALSE;
void expr_init();
Expr* mkConst(uint64_t v, int w);
Expr* mkBool(bool b);
Expr* mkVar(const std::string& name, int w, int64_t lo, int64_t hi, bool undef);
Expr* mkRealVar(const std::string& name, int bits);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkCmp(Kind k, Expr* a, Expr* b);     // EQ ULT ULE SLT SLE on BV (or EQ on bool)
Expr* mkNot(Expr* a);
Expr* mkBBin(Kind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);    // any sort (BV or bool)
Expr* mkExtract(Expr* a, int lo, int w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, int w);
Expr* mkSExt(Expr* a, int w);
Expr* mkBoolToBV(Expr* b, int w, bool sext);
Expr* mkBVToBool(Expr* a);                 // width-1 BV -> bool
// reals
Expr* mkRealConst(double d);
Expr* mkRealConstQ(const mpq_class& q);
Expr* mkRAdd(Expr* a, Expr* b);
Expr* mkRSub(Expr* a, Expr* b);
Expr* mkRMul(Expr* a, Expr* b);
Expr* mkRDiv(Expr* a, Expr* b);
Expr* mkRNeg(Expr* a);
Expr* mkRIte(Expr* c, Expr* a, Expr* b);
Expr* mkRCmp(Kind k, Expr* a, Expr* b);    // K_RLT0: a<b, K_RLE0: a<=b, K_REQ0: a==b
Expr* mkRFromInt(Expr* bv, bool sgn);
Expr* mkRToInt(Expr* r, int w);
Expr* mkRFloor(Expr* r);
Expr* mkRUF(const std::string& name, Expr* a, Expr* b);
bool realConst(Expr* e, double& d);        // exactly representable constant
bool realConstQ(Expr* e, mpq_class& q);
bool realExact(Expr* e);                   // value provably representable as a double
double realBound(Expr* e);

// solver
struct SolverStats { uint64_t queries, sat, unsat, unknown; double time; };
extern SolverStats sstats;
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
void solver_add(Expr* boolean);            // extend the path condition
Res solver_check(Expr* extra, bool integral, bool keep_model); // PC && extra ; on SAT and keep_model, the model becomes current
bool model_valid();
bool use_alt_model();                      // after a fork: continue from the model of the other branch
bool evalBool(Expr* e);
uint64_t evalBV(Expr* e);
mpq_class evalReal(Expr* e);
int known(Expr* cond);                     // 1 / 0 / -1 from the path condition
extern std::function<void(const std::string&)> engine_fail;
std::string exprStr(Expr* e, int depth = 6);
