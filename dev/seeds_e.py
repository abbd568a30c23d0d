from seedlib import seed
F='include/bcl/Equation.h'
PRE='''#include <bcl/Equation.h>
#include <string>
#define CHECK(X) do { if (!(X)) { printf("failed: %s (line %d)\\n", #X, __LINE__); return 1; } } while (0)
using namespace milp;
using Sys = BinomialSystem<int, long, 2, 2, 2>;
struct Info {
  int Next = 100;
  bool Guard[10] = {};
  long Value[10] = {};
  int parameterColumn() { return Next++; }
  int parameterColumn(int C) { return 1000 + C; }
  bool isParameter(int C) const { return C >= 100; }
  template<class T> T get(int C) const;
  std::string name(int C) const { return "v" + std::to_string(C); }
};
template<> long Info::get<long>(int C) const { return Value[C]; }
template<> bool Info::get<bool>(int C) const { return Guard[C]; }
'''
SAT='''
// Are the equations satisfied for some values of the parameters?
static bool satisfied(const Sys &S, int X, long A, int Y, long B, long C) {
  for (long T = -3; T < 4; ++T) {
    long V[2]; bool Has[2] = {};
    for (auto &E : S.getSolution())
      for (int K = 0; K < 2; ++K)
        if (E.LHS.Column == (K ? Y : X)) { V[K] = E.Constant - E.RHS.Value * T; Has[K] = true; }
    if (!Has[0] || !Has[1] || A * V[0] + B * V[1] != C) return false;
  }
  return true;
}
'''
seed('E01-a','E01',[(F,"""          if (!(Guard &= !Info.template get<bool>(Col)))
            break;""","""          if ((Guard = !Info.template get<bool>(Col)))
            break;""")],PRE+'''
int main() {
  Sys S; Info I;
  I.Guard[2] = true;
  S.push_back({1, 1}, {2, 1}, 5);
  S.back().addInverseGuard(1);
  S.back().addInverseGuard(2);
  S.instantiate(I);
  CHECK(S.instantiated_size() == 0);
  Sys T;
  T.push_back({1, 1}, {2, 1}, 5);
  T.back().addInverseGuard(1);
  T.instantiate(I);
  CHECK(T.instantiated_size() == 1);
}''','an equation with two inverse guards of which only the first is false','it is instantiated although an inverse guard is true')
seed('E01-b','E01',[(F,"""        for (auto &Monom : Row.computed_monoms())
          Row.Constant += Monom.Value * Info.template get<ValueT>(Monom.Column);
        ++I;""","""        auto Value = Row.Constant;
        for (auto &Monom : Row.computed_monoms())
          Row.Constant = Value + Monom.Value * Info.template get<ValueT>(Monom.Column);
        ++I;""")],PRE+'''
int main() {
  Sys S; Info I;
  I.Value[1] = 10; I.Value[2] = 7;
  S.push_back({1, 1}, {2, 1}, 5);
  S.back().addComputedMonom({1, 2});
  CHECK((S.instantiate(I), S.instantiated_begin()->Constant == 25));
  Sys T;
  T.push_back({1, 1}, {2, 1}, 5);
  T.back().addComputedMonom({1, 2});
  T.back().addComputedMonom({2, 3});
  T.instantiate(I);
  CHECK(T.instantiated_begin()->Constant == 46);
}''','an equation with two computable monomials','only the last one is added to the constant')
seed('E02-a','E02',[(F,"""        updateRow(SolutionRHS, SolutionToUpdate.Constant, SolutionToUpdate.RHS);
""","""        updateRow(SolutionRHS, SolutionToUpdate.Constant, SolutionToUpdate.LHS);
""")],PRE+SAT+'''
int main() {
  Sys S; Info I;
  S.push_back({1, 2}, {2, 3}, 7);
  S.push_back({2, 1}, {3, 5}, 4);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 2));
  CHECK(satisfied(S, 1, 2, 2, 3, 7));
  CHECK(satisfied(S, 2, 1, 3, 5, 4));
}''','two equations, where the variable both have is on the left of the second','the solution of the first variable keeps a parameter that the second equation determines')
seed('E02-b','E02',[(F,"ParameterCol, Row.RHS.Value / std::get<0>(GCD), AnySolution.first);","ParameterCol, Row.RHS.Value, AnySolution.first);"),(F,"ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);","ParameterCol, - Row.LHS.Value, AnySolution.second);")],PRE+'''
int main() {
  // 2 * x + 4 * y = 6 has the solution x = 3, y = 0
  Sys S; Info I;
  S.push_back({1, 2}, {2, 4}, 6);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 1));
  bool Three = false, One = false;
  for (long T = -20; T < 20; ++T)
    for (auto &E : S.getSolution())
      if (E.LHS.Column == 1) { Three |= E.Constant - E.RHS.Value * T == 3; One |= E.Constant - E.RHS.Value * T == 1; }
  CHECK(Three && One);
}''','coefficients with a common divisor','the solutions given satisfy the equation, but some solutions are missing')
seed('E02-c','E02',[(F,"if (!IsSolvable && Row.Constant % std::get<0>(GCD))","if (!IsSolvable && I > 0 && Row.Constant % std::get<0>(GCD))" if False else "if (!IsSolvable && Row.Constant / std::get<0>(GCD) == 0 && Row.Constant)")],PRE+'''
int main() {
  Sys S; Info I;
  S.push_back({1, 2}, {2, 4}, 1);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 0));
  Sys T;
  T.push_back({1, 2}, {2, 4}, 7);
  T.instantiate(I);
#ifdef NDEBUG
#endif
  CHECK((T.solve<Info, false>(I) == 0));
}''','an equation without solution whose constant is greater than the GCD of its coefficients','the equation is taken for solvable')
seed('E03-a','E03',[(F,"""  if (RHS < 0)
    std::get<2>(Res) = -std::get<2>(Res);""","""  if (RHS < 0 && LHS > 0)
    std::get<2>(Res) = -std::get<2>(Res);""")],PRE+'''
int main() {
  for (long L = -9; L <= 9; ++L)
    for (long R = -9; R <= 9; ++R) {
      auto T = euclidGCD(L, R);
      CHECK(std::get<0>(T) == std::get<1>(T) * L + std::get<2>(T) * R);
    }
}''','two negative numbers','the coefficients do not give the GCD')
seed('E03-b','E03',[(F,"auto Res = detail::euclidGCD(std::abs(LHS), std::abs(RHS));","auto Res = detail::euclidGCD(LHS < 0 ? -LHS : LHS, RHS);")],PRE+'''
int main() {
  for (long L = -9; L <= 9; ++L)
    for (long R = -9; R <= 9; ++R) {
      auto T = euclidGCD(L, R);
      CHECK(std::get<0>(T) == std::get<1>(T) * L + std::get<2>(T) * R);
      CHECK(std::get<0>(T) >= 0);
    }
}''','a negative second number','the GCD is negative or its coefficients have the wrong sign')
seed('E04-a','E04',[(F,"      Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;","      Production *= (Production  <  0) ? -1 : 1;")],PRE+'''
static long value(const BAEquation<int, long> &E, long Y) { return E.Constant - Y; }
int main() {
  // x + 2 T = .., y - 3 T = ..: the coefficients have different signs
  Sys S; Info I;
  S.push_back({1, 3}, {2, 2}, 12);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 1));
  S.reverseSolution(I);
  // all (x, y) that belong to a value of the parameter satisfy the equation
  for (long Y = -60; Y < 60; ++Y) {
    long V[3] = {}; bool Int = true;
    for (auto &E : S.getSolution()) {
      long N = value(E, Y);
      if (N % E.RHS.Value) Int = false;
      V[E.RHS.Column] = N / E.RHS.Value;
    }
    CHECK(!Int || 3 * V[1] + 2 * V[2] == 12);
  }
}''','a solution whose coefficients have different signs','the equations use different parameters')
seed('E04-b','E04',[(F,"""      S.Constant -= Min;
""","""      S.Constant -= S.Constant < 0 ? S.Constant : Min;
""")],PRE+'''
static int run(long C, long D) {
  Sys S; Info I;
  S.push_back({1, 2}, {2, 3}, C);
  S.push_back({2, 1}, {3, 5}, D);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 2));
  S.reverseSolution(I);
  Sys Old(S);
  S.solutioWithPositiveConstant(I);
  long Shift = S.getSolution()[0].Constant - Old.getSolution()[0].Constant;
  for (std::size_t K = 0; K < 3; ++K) {
    CHECK(S.getSolution()[K].Constant >= 0);
    CHECK(S.getSolution()[K].Constant - Old.getSolution()[K].Constant == Shift);
  }
  return 0;
}
int main() {
  for (long C = -9; C < 10; ++C)
    for (long D = -9; D < 10; ++D)
      if (run(C, D)) return 1;
}''','several equations with different negative constants','the constants are shifted by different amounts')
seed('E04-c','E04',[(F,"      std::swap(Divisors[0], Divisors[I]);","      std::swap(Divisors[0], Divisors[I / 2]);")],PRE+'''
int main() {
  Sys S; Info I;
  S.push_back({1, 2}, {2, 3}, 7);
  S.push_back({2, 1}, {3, 5}, 4);
  S.instantiate(I);
  CHECK((S.solve<Info, false>(I) == 2));
  long R[4] = {}, P = 0;
  for (auto &E : S.getSolution()) R[E.LHS.Column] = E.RHS.Value;
  S.reverseSolution(I);
  for (auto &E : S.getSolution()) {
    long N = E.RHS.Value * R[E.RHS.Column];
    CHECK(N > 0 && (!P || N == P));
    P = N;
  }
}''','a solution with three variables','the equations use different parameters')
