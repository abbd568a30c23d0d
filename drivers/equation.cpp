// Binomial systems of equations.
#include "vf.h"
#include <array>
#include <cstdlib>
#include <string>
#include <bcl/Equation.h>

extern "C" {
long spec_coef(const char *) noexcept;                   // an unknown coefficient other than 0
long spec_const(const char *) noexcept;                  // an unknown number
void spec_zero(long V, const char *) noexcept;           // V is 0 for all values of the unknowns
void spec_gcd(long G, long X, long Y, long L, long R) noexcept; // G = X * L + Y * R is the greatest common divisor
long spec_bezout(int Call, int Right) noexcept;          // coefficients the given call of euclidGCD() found
bool spec_one(long A, long B) noexcept;                  // A + B or A - B is 1 or -1
bool spec_divides(int Call, long C) noexcept;            // the GCD the given call found divides C
void spec_solvable() noexcept;                           // all equations have solutions
}

using Col = unsigned;
using Sys = milp::BinomialSystem<Col, long, 2, 2, 2>;
using RowT = milp::Row<Col, long, 3, 2, 2>;

// Variables 1 .. 9 are given, parameters are numbered from 100 and 1000.
struct Info {
  Col mNext = 100;
  long mVal[4] = {};
  bool mGuard[4] = {};
  Col parameterColumn() { return mNext++; }
  Col parameterColumn(Col C) { return 1000 + C; }
  bool isParameter(Col C) const { return C >= 100; }
  template<class T> T get(Col C) const;
};
template<> long Info::get<long>(Col C) const { return mVal[C - 20]; }
template<> bool Info::get<bool>(Col C) const { return mGuard[C - 30]; }

// What is printed.
struct Out {
  int N = 0;
  template<class T> Out &operator<<(const T &) { ++N; return *this; }
};
struct Named : Info { const char *name(Col) const { return "v"; } };

// -- rows ---------------------------------------------------------------------
extern "C" void drv_row() {
  long V[5];
  for (auto &X : V) X = vf_any("v");
  RowT R(1, V[0], 2, V[1], V[2]);
  vf_check(R.LHS.Column == 1 && R.LHS.Value == V[0] && R.RHS.Column == 2 && R.RHS.Value == V[1] && R.Constant == V[2], "a row is the equation it was built from");
  int G = vf_nondet(4), I = vf_nondet(3), M = vf_nondet(3);
  for (int K = 0; K < 3; ++K) {
    if (K < G) R.addGuard(30 + K);
    if (K < I) R.addInverseGuard(40 + K);
    if (K < M) R.addComputedMonom({Col(50 + K), V[3 + K]});
  }
  RowT C(R);
  C = R;
  const RowT &X = vf_nondet(2) ? C : R;
  vf_check(X.guard_size() == std::size_t(G), "number of guards");
  vf_check(X.inverse_size() == std::size_t(I), "number of inverse guards");
  vf_check(X.computed_size() == std::size_t(M), "number of computable monomials");
  int N = 0;
  for (auto &K : X.guards()) vf_check(K == Col(30 + N++), "the guards of a row are those added, in order");
  vf_check(N == G, "all guards of a row are visited");
  N = 0;
  for (auto &K : X.inverse_guards()) vf_check(K == Col(40 + N++), "the inverse guards of a row are those added, in order");
  vf_check(N == I, "all inverse guards of a row are visited");
  N = 0;
  for (auto &K : X.computed_monoms()) {
    vf_check(K.Column == Col(50 + N) && K.Value == V[3 + N], "the computable monomials of a row are those added, in order");
    ++N;
  }
  vf_check(N == M, "all computable monomials of a row are visited");
  N = 0;
  for (auto &K : R.guards()) vf_check(K == Col(30 + N++), "the guards of a row are those added, in order");
  for (auto &K : R.inverse_guards()) vf_check(K == Col(40 + N++ - G), "the inverse guards of a row are those added, in order");
  for (auto &K : R.computed_monoms()) { vf_check(K.Column == Col(50 + N - G - I), "the computable monomials of a row are those added, in order"); ++N; }
  vf_check(N == G + I + M, "all parts of a row are visited");
}

// -- instantiation ------------------------------------------------------------
// Equation K has the columns 2K+1 and 2K+2.
extern "C" void drv_instantiate() {
  Sys S;
  Info X;
  for (auto &G : X.mGuard) G = vf_nondet(2);
  for (auto &V : X.mVal) V = vf_any("value");
  int N = vf_nondet(4);
  long C[3], M[3], A[3], B[3];
  bool Keep[3];
  for (int K = 0; K < N; ++K) {
    C[K] = vf_any("constant");
    M[K] = vf_any("coefficient");
    A[K] = vf_any("a");
    B[K] = vf_any("b");
    S.push_back({Col(2 * K + 1), A[K]}, {Col(2 * K + 2), B[K]}, C[K]);
    Keep[K] = true;
    switch (K < 2 ? vf_nondet(4) : vf_nondet(2) * 3) {
    case 1:
      S.back().addGuard(30 + K);
      S.back().addGuard(33);
      Keep[K] = X.mGuard[K] && X.mGuard[3];
      break;
    case 2:
      S.back().addInverseGuard(30 + K);
      S.back().addInverseGuard(33);
      Keep[K] = !X.mGuard[K] && !X.mGuard[3];
      break;
    case 3:
      S.back().addGuard(30 + K);
      S.back().addInverseGuard(33);
      S.back().addComputedMonom({Col(20 + K), M[K]});
      if (K == 0) {
        S.back().addComputedMonom({Col(23), M[K]});
        S.back().addGuard(32);
      }
      Keep[K] = X.mGuard[K] && !X.mGuard[3] && (K || X.mGuard[2]);
      C[K] += M[K] * X.mVal[K];
      if (K == 0) C[K] += M[K] * X.mVal[3];
      break;
    }
  }
  vf_check(S.size() == std::size_t(N) && !S.isInstantiated(), "number of equations");
  S.instantiate(X);
  vf_check(S.isInstantiated(), "the system is instantiated");
  vf_check(S.size() == std::size_t(N), "number of equations of an instantiated system");
  std::size_t Kept = 0;
  for (int K = 0; K < N; ++K) if (Keep[K]) ++Kept;
  vf_check(S.instantiated_size() == Kept, "number of equations whose guards hold");
  bool Seen[3] = {};
  std::size_t Cnt = 0;
  const Sys &CS = S;
  for (auto I = CS.instantiated_begin(), E = CS.instantiated_end(); I != E; ++I) {
    int K = (I->LHS.Column - 1) / 2;
    vf_check(K >= 0 && K < N && !Seen[K] && Keep[K], "the instantiated equations are those whose guards hold, once each");
    Seen[K] = true;
    ++Cnt;
    vf_check(I->LHS.Column == Col(2 * K + 1) && I->RHS.Column == Col(2 * K + 2) && I->LHS.Value == A[K] && I->RHS.Value == B[K], "an instantiated equation has the monomials of the original");
    vf_check(I->Constant == C[K], "the computed monomials are added to the constant of an instantiated equation");
  }
  vf_check(Cnt == Kept, "all instantiated equations are visited");
  Cnt = 0;
  for (auto I = S.instantiated_begin(), E = S.instantiated_end(); I != E; ++I) ++Cnt;
  vf_check(Cnt == Kept, "all instantiated equations are visited");
  bool All[3] = {};
  Cnt = 0;
  for (auto &R : CS) {
    int K = (R.LHS.Column - 1) / 2;
    vf_check(K >= 0 && K < N && !All[K], "each equation is visited once");
    All[K] = true;
    ++Cnt;
  }
  vf_check(Cnt == std::size_t(N), "all equations are visited");
  Cnt = 0;
  for (auto &R : S) ++Cnt;
  vf_check(Cnt == std::size_t(N), "all equations are visited");
}

// The numbers that are printed for a system with one computed monomial.
struct Numbers {
  int N = 0;
  long V[16];
  Numbers &operator<<(long X) { if (N < 16) V[N] = X; ++N; return *this; }
  Numbers &operator<<(bool) { return *this; }
  Numbers &operator<<(const char *) { return *this; }
};

extern "C" void drv_print() {
  Sys S;
  Named X;
  long A = vf_any("a"), B = vf_any("b"), C = vf_any("constant"), M = vf_any("m");
  X.mVal[1] = vf_any("value");
  X.mGuard[0] = vf_nondet(2);
  S.push_back({1, A}, {2, B}, C);
  S.back().addGuard(30);
  S.back().addComputedMonom({21, M});
  S.instantiate(X);
  Numbers O;
  S.printInstantiated(X, O);
  vf_check(O.N == 5, "the equations are printed once, with their computed monomials");
  vf_check(O.V[0] == A && O.V[1] == B, "the coefficients of an equation are printed");
  vf_check(O.V[2] == (X.mGuard[0] ? C + M * X.mVal[1] : C), "the constant of an equation is printed");
  vf_check(O.V[3] == M && O.V[4] == M * X.mVal[1], "the computed monomials of an equation are printed with their value");
}

// -- greatest common divisor --------------------------------------------------
extern "C" void drv_gcd() {
  long L = spec_const("L"), R = spec_const("R");
  auto T = milp::euclidGCD(L, R);
  spec_gcd(std::get<0>(T), std::get<1>(T), std::get<2>(T), L, R);
}

// -- solution -----------------------------------------------------------------
struct Eq { Col X; Col Y; long A, B, C; bool Dead; };

template<std::size_t N> void input(Sys &S, Eq (&E)[N]) {
  for (auto &Q : E) {
    Q.A = spec_coef("A");
    Q.B = spec_coef("B");
    Q.C = spec_const("C");
    S.push_back({Q.X, Q.A}, {Q.Y, Q.B}, Q.C);
    if (Q.Dead) S.back().addGuard(30);
  }
}

struct Sol { Col P; long R, K; int N; };

// Var I has the solution T[I].
template<std::size_t N> void read(const Sys &S, Sol (&T)[N]) {
  for (auto &X : T) X.N = 0;
  for (auto &R : S.getSolution()) {
    if (R.LHS.Column >= 100) continue;
    vf_check(R.LHS.Column < N, "solutions are those of variables of the system");
    auto &X = T[R.LHS.Column];
    vf_check(++X.N == 1, "each variable has one solution");
    vf_check(R.LHS.Value == 1, "the coefficient of a variable in its solution is 1");
    vf_check(R.RHS.Column >= 100, "solutions are given by parameters");
    X.P = R.RHS.Column;
    X.R = R.RHS.Value;
    X.K = R.Constant;
  }
}

template<std::size_t N> void satisfied(const Eq &Q, Sol (&T)[N]) {
  auto &X = T[Q.X], &Y = T[Q.Y];
  vf_check(X.N == 1 && Y.N == 1, "each variable of a solved equation has a solution");
  if (X.P == Y.P)
    spec_zero(Q.A * X.R + Q.B * Y.R, "the solutions satisfy the equations for every value of a parameter");
  else {
    spec_zero(Q.A * X.R, "the solutions satisfy the equations for every value of a parameter");
    spec_zero(Q.B * Y.R, "the solutions satisfy the equations for every value of a parameter");
  }
  spec_zero(Q.A * X.K + Q.B * Y.K - Q.C, "the solutions satisfy the equations");
}

// One equation; another one is discarded.
extern "C" void drv_one() {
  Eq E[2] = {{1, 2}, {2, 3}};
  int Dead = vf_nondet(3);
  if (Dead) E[Dead - 1].Dead = true;
  Sys S;
  Info X;
  if (!Dead) {
    Eq F[1] = {{1, 2}};
    input(S, F);
    S.instantiate(X);
    bool Known = vf_nondet(2);
    if (Known) spec_solvable();
    std::size_t N = Known ? S.solve(X) : S.solve<Info, false>(X);
    vf_check(spec_divides(0, F[0].C) == (N == 1), "an equation is solved exactly if the GCD of its coefficients divides its constant");
    if (N == 0) return;
    Sol T[4];
    read(S, T);
    satisfied(F[0], T);
    vf_check(S.getSolution().size() == 2, "there is one solution for each variable");
    long B0 = spec_bezout(0, 0), B1 = spec_bezout(0, 1);
    vf_check(spec_one(B1 * T[1].R, B0 * T[2].R), "the solutions comprise all solutions");
    return;
  }
  input(S, E);
  S.instantiate(X);
  std::size_t N = S.solve<Info, false>(X);
  if (N == 0) return;
  vf_check(N == 1, "only instantiated equations are solved");
  Sol T[4];
  read(S, T);
  satisfied(E[Dead == 1], T);
  vf_check(T[Dead == 1 ? 1 : 3].N == 0, "discarded equations have no solution");
}

// Two equations that share a variable, at any place.
extern "C" void drv_two() {
  Eq E[2] = {{1, 2}, {2, 3}};
  int Shape = vf_nondet(4);
  if (Shape & 1) E[0] = {2, 1};
  if (Shape & 2) E[1] = {3, 2};
  Sys S;
  Info X;
  input(S, E);
  S.instantiate(X);
  std::size_t N = S.solve<Info, false>(X);
  if (N < 2) {
    vf_check(!spec_divides(N, 0), "an equation with a solution is solved");
    return;
  }
  Sol T[4];
  read(S, T);
  for (auto &Q : E) satisfied(Q, T);
  vf_check(S.getSolution().size() == 3, "there is one solution for each variable");
  vf_check(T[1].P == T[2].P && T[2].P == T[3].P, "variables that depend on each other have the same parameter");
  long X1 = spec_bezout(0, Shape & 1), Y1 = spec_bezout(0, !(Shape & 1));
  long X2 = spec_bezout(1, (Shape & 2) != 0), Y2 = spec_bezout(1, !(Shape & 2));
  long C1 = Y1 * T[1].R - X1 * T[2].R;
  vf_check(spec_one(Y2 * C1, X2 * T[3].R), "the solutions comprise all solutions");
}

// Independent equations.
extern "C" void drv_apart() {
  Eq E[2] = {{1, 2}, {3, 4}};
  Sys S;
  Named X;
  input(S, E);
  S.instantiate(X);
  Out O;
  bool Log = vf_nondet(2);
  std::size_t N = Log ? S.solve<Named, false>(X, O) : S.solve<Named, false>(X);
  vf_check(Log == (O.N > 0), "the solution is logged if that is asked for");
  if (N < 2) return;
  if (Log) {
    O.N = 0;
    S.printInstantiated(X, O);
    S.printSolution(X, O);
    vf_check(O.N > 0, "a system and its solution can be printed");
  }
  Sol T[5];
  read(S, T);
  for (auto &Q : E) satisfied(Q, T);
  vf_check(S.getSolution().size() == 4, "there is one solution for each variable");
  vf_check(T[1].P == T[2].P && T[3].P == T[4].P && T[1].P != T[3].P, "independent variables have their own parameter");
  vf_check(spec_one(spec_bezout(0, 1) * T[1].R, spec_bezout(0, 0) * T[2].R), "the solutions comprise all solutions");
  vf_check(spec_one(spec_bezout(1, 1) * T[3].R, spec_bezout(1, 0) * T[4].R), "the solutions comprise all solutions");
}

// Three equations that form a chain or a star.
extern "C" void drv_three() {
  Eq E[3] = {{1, 2}, {2, 3}, {3, 4}};
  switch (vf_nondet(5)) {
  case 1: E[2] = {2, 4}; break;                  // star
  case 2: E[2] = {4, 1}; break;                  // both ends
  case 3: E[1] = {3, 4}; E[2] = {4, 2}; break;   // joins two chains
  case 4: E[1] = {3, 4}; E[2] = {1, 3}; break;
  }
  Sys S;
  Info X;
  input(S, E);
  S.instantiate(X);
  std::size_t N = S.solve<Info, false>(X);
  if (N < 3) return;
  Sol T[5];
  read(S, T);
  for (auto &Q : E) satisfied(Q, T);
  vf_check(S.getSolution().size() == 4, "there is one solution for each variable");
}

// The second equation relates variables that depend on each other already.
extern "C" void drv_cycle() {
  Eq E[2] = {{1, 2}, {1, 2}};
  Sys S;
  Info X;
  input(S, E);
  S.instantiate(X);
  std::size_t N = S.solve<Info, false>(X);
  if (N < 2) return;
  Sol T[3];
  read(S, T);
  auto &L = T[1], &R = T[2];
  vf_check(L.N == 1 && R.N == 1 && L.P == R.P, "each variable of a solved equation has a solution (dependent equations)");
  for (auto &Q : E) {
    spec_zero(Q.A * L.R + Q.B * R.R, "the solutions satisfy dependent equations for every value of a parameter");
    spec_zero(Q.A * L.K + Q.B * R.K - Q.C, "the solutions satisfy dependent equations");
  }
}

// -- transformations of the solution ------------------------------------------
extern "C" void drv_reverse() {
  Eq E[2] = {{1, 2}, {2, 3}};
  int M = 1 + vf_nondet(2);
  Sys S;
  Info X;
  S.reverseSolution(X);
  S.solutioWithPositiveConstant(X);
  vf_check(S.getSolution().empty(), "there is no solution of an empty system");
  if (M == 1) {
    Eq F[1] = {{1, 2}};
    input(S, F);
  } else
    input(S, E);
  S.instantiate(X);
  if (S.solve<Info, false>(X) < std::size_t(M)) return;
  Sol T[4];
  read(S, T);
  S.reverseSolution(X);
  vf_check(S.getSolution().size() == std::size_t(M + 1), "no solution is lost");
  long First = 0, D[4];
  Col P = 0;
  for (auto &R : S.getSolution()) {
    vf_check(R.RHS.Column >= 1 && R.RHS.Column <= Col(M + 1) && R.LHS.Value == 1, "a variable is the parameter of its solution");
    auto &V = T[R.RHS.Column];
    vf_check(V.N++ == 1, "each variable is the parameter of one solution");
    vf_check(R.LHS.Column == 1000 + V.P, "the new parameter belongs to the old one");
    spec_zero(R.Constant - R.RHS.Value * V.K, "the reversed solution has the same values");
    if (!First) {
      First = R.RHS.Value * V.R;
      vf_check(First > 0, "the new parameter is a positive multiple of the old one");
    }
    spec_zero(R.RHS.Value * V.R - First, "the new parameter is the same multiple of the old one in each equation");
    D[R.RHS.Column] = R.Constant;
    P = R.LHS.Column;
  }
  Sys Old(S);
  S.solutioWithPositiveConstant(X);
  vf_check(S.getSolution().size() == std::size_t(M + 1), "no solution is lost");
  long Shift = S.getSolution()[0].Constant - Old.getSolution()[0].Constant;
  bool Changed = S.getSolution()[0].LHS.Column != P;
  bool Negative = false;
  for (int K = 1; K <= M + 1; ++K)
    if (D[K] < 0) Negative = true;
  vf_check(Changed == Negative, "the parameter is replaced exactly if there is a negative free term");
  for (int K = 0; K <= M; ++K) {
    auto &N = S.getSolution()[K], &O = Old.getSolution()[K];
    vf_check(N.LHS.Column == (Changed ? 1000 + P : P) && N.LHS.Value == 1 && N.RHS.Column == O.RHS.Column && N.RHS.Value == O.RHS.Value, "only the parameter and the free terms change");
    spec_zero(N.Constant - O.Constant - Shift, "all equations are shifted by the same amount");
    if (!Changed)
      spec_zero(Shift, "nothing changes without a negative free term");
    vf_check(N.Constant >= 0, "no free term is negative");
  }
}
