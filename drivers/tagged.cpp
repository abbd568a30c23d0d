#include "vf.h"
#include <cassert>
#include <cstddef>
#include <tuple>
#include <utility>
#include <bcl/tagged.h>
#include <bcl/tuple_utils.h>
#include <bcl/convertible_pair.h>
using namespace bcl;
template<class X, class Y> constexpr bool same() { return std::is_same<X, Y>::value; }
struct A; struct A2; struct B; struct C; struct C2; struct C3; struct None;
using TA = tagged<long, A, A2>;
using TB = tagged<char *, B>;
using TC = tagged<long, C, C2, C3>;
// -- types -------------------------------------------------------------------------
static_assert(is_tagged<TA>::value && !is_tagged<long>::value, "tagged types are recognised");
static_assert(same<TA::type, long>() && same<TA::tag, A>() && same<TA::alias, TypeList<A, A2>>(), "a tagged type knows its type and tags");
static_assert(same<tagged_t<long, A, A2>, long>() && same<tagged_tag<long, A, A2>, A>() && same<tagged_alias<long, A, A2>, TypeList<A, A2>>(), "a tagged type knows its type and tags");
static_assert(tags::is_alias<A2, TA>::value && tags::is_alias<A, TA>::value && !tags::is_alias<B, TA>::value, "aliases are recognised");
static_assert(same<get_tagged<A2, TB, TA, TC>, TA>() && same<get_tagged<C3, TA, TB, TC>, TC>() && same<get_tagged<B, TypeList<TA, TB, TC>>, TB>() && same<get_tagged<None, TA, TB>, void>(), "a tagged type is found by each of its tags");
static_assert(same<get_tagged_t<B, TA, TB>, char *>() && same<get_tagged_tag<C2, TA, TC>, C>() && same<get_tagged_alias<A2, TA>, TypeList<A, A2>>() && same<get_tagged_t<None, TA, TB>, void>() && same<get_tagged_tag<None, TA>, void>() && same<get_tagged_alias<None, TA>, void>(), "the parts of a tagged type are found by its tags");
static_assert(same<add_alias_tagged<TB, A, C>, tagged<char *, B, A, C>>() && same<add_alias_tagged<long, A>, tagged<long, A>>() && same<add_alias_list_tagged<TB, TypeList<A, C>>, tagged<char *, B, A, C>>(), "aliases are added");
using Tuple = tagged_tuple<TA, TB, TC>;
static_assert(tagged_tuple_size<Tuple>::value == 3 && !tagged_tuple_empty<Tuple>::value && tagged_tuple_empty<tagged_tuple<>>::value, "the size of a tagged tuple");
static_assert(same<tagged_tuple_tag<0, Tuple>::type, A>() && same<tagged_tuple_tag<1, Tuple>::type, B>() && same<tagged_tuple_tag<2, Tuple>::type, C>(), "the tag at an index");
static_assert(tagged_tuple_idx<A, Tuple>::value == 0 && tagged_tuple_idx<B, Tuple>::value == 1 && tagged_tuple_idx<C, Tuple>::value == 2 && tagged_tuple_idx<C3, Tuple>::value == 2, "the index of a tag");
// -- pair ----------------------------------------------------------------------------
using Pair = tagged_pair<TA, TC>;
extern "C" void drv_pair() {
  long X = vf_any("x"), Y = vf_any("y"), V = vf_any("v");
  Pair P(X, Y);
  const Pair &CP = P;
  vf_check(P.get<A>() == X && P.get<A2>() == X && P.get<C>() == Y && P.get<C2>() == Y && P.get<C3>() == Y, "each tag denotes its element");
  vf_check(CP.get<A>() == X && CP.get<A2>() == X && CP.get<C>() == Y && CP.get<C2>() == Y && CP.get<C3>() == Y, "each tag denotes its element");
  vf_check(P.first == X && P.second == Y, "a tagged pair is a pair");
  switch (vf_nondet(4)) {
  case 0: vf_event("write"); P.get<C2>() = V; vf_check(P.second == V && P.first == X && P.get<A>() == X, "an element is accessed by its tag only"); break;
  case 1: vf_event("write"); P.get<A>() = V; vf_check(P.first == V && P.second == Y && P.get<C>() == Y, "an element is accessed by its tag only"); break;
  case 2: { vf_event("assign"); Pair Q(V, V); Pair &R = (Q = std::pair<long, long>(X, Y)); vf_check(&R == &Q && Q.get<A>() == X && Q.get<C>() == Y, "a pair can be assigned"); break; }
  case 3: { vf_event("copy"); Pair Q(P); vf_check(Q.get<A>() == X && Q.get<C>() == Y, "a pair can be copied"); Q = Pair(V, X); vf_check(Q.get<A>() == V && Q.get<C>() == X && P.get<A>() == X, "copies are independent"); break; }
  }
}
// -- elements that can only be moved ------------------------------------------------
struct Mv {
  long V;
  Mv(long V) : V(V) {}
  Mv(Mv &&O) : V(O.V) { O.V = -1; }
  Mv &operator=(Mv &&O) { V = O.V; O.V = -1; return *this; }
};
using MA = tagged<Mv, A>;
using MB = tagged<Mv, B>;
extern "C" void drv_move() {
  long X = vf_any("x"), Y = vf_any("y"), Z = vf_any("z"), W = vf_any("w");
  switch (vf_nondet(3)) {
  case 0: { vf_event("pair"); tagged_pair<MA, MB> P(X, Y), R(Z, W); tagged_pair<MA, MB> Q(std::move(P)); vf_check(Q.get<A>().V == X && Q.get<B>().V == Y && P.get<A>().V == -1, "the elements of a pair are moved");
    R = std::move(Q); vf_check(R.get<A>().V == X && R.get<B>().V == Y && Q.get<B>().V == -1, "the elements of a pair are moved");
    R = std::pair<Mv, Mv>(Mv(Z), Mv(W)); vf_check(R.get<A>().V == Z && R.get<B>().V == W, "the elements of a pair are moved"); Mv M(X); tagged_pair<MA, MB> S(std::move(M), Mv(Y)); vf_check(S.get<A>().V == X && S.get<B>().V == Y && M.V == -1, "the elements of a pair are moved"); break; }
  case 1: { vf_event("tuple"); tagged_tuple<MA, MB> P(X, Y), R(Z, W); tagged_tuple<MA, MB> Q(std::move(P)); vf_check(Q.get<A>().V == X && Q.get<B>().V == Y && P.get<A>().V == -1, "the elements of a tuple are moved");
    R = std::move(Q); vf_check(R.get<A>().V == X && R.get<B>().V == Y && Q.get<B>().V == -1, "the elements of a tuple are moved");
    Mv M(X); tagged_tuple<MA, MB> S(std::move(M), Mv(Y)); vf_check(S.get<A>().V == X && S.get<B>().V == Y && M.V == -1, "the elements of a tuple are moved"); break; }
  case 2: { vf_event("convertible pair"); using CP = convertible_pair<Mv, long>; CP P(X, Y), R(Z, W); CP Q(std::move(P)); vf_check(Q.first.V == X && Q.second == Y && P.first.V == -1, "the elements of a pair are moved"); R = std::move(Q); vf_check(R.first.V == X && R.second == Y && Q.first.V == -1, "the elements of a pair are moved"); break; }
  }
}
// -- the source of a copy keeps its elements ------------------------------------------
struct Cm {
  long V;
  Cm(long V) : V(V) {}
  Cm(const Cm &O) : V(O.V) {}
  Cm &operator=(const Cm &O) { V = O.V; return *this; }
  Cm(Cm &&O) : V(O.V) { O.V = -1; }
  Cm &operator=(Cm &&O) { V = O.V; O.V = -1; return *this; }
};
using CA = tagged<Cm, A>;
using CB = tagged<Cm, B>;
extern "C" void drv_copy() {
  long X = vf_any("x"), Y = vf_any("y"), Z = vf_any("z"), W = vf_any("w");
#define BOTH(S, T, F, G, P, Q) { vf_check(S F == P && S G == Q, "the source of a copy keeps its elements"); vf_check(T F == P && T G == Q, "the elements are copied"); }
  switch (vf_nondet(3)) {
  case 0: {
    vf_event("pair");
    using P = tagged_pair<CA, CB>;
    P S(X, Y), T(Z, W), R(S);
    const P &CS = S;
    BOTH(S, R, .get<A>().V, .get<B>().V, X, Y)
    switch (vf_nondet(4)) {
    case 0: T = S; break;
    case 1: T = CS; break;
    case 2: { P Q(CS); BOTH(S, Q, .get<A>().V, .get<B>().V, X, Y) T = Q; BOTH(Q, T, .get<A>().V, .get<B>().V, X, Y) break; }
    case 3: { std::pair<Cm, Cm> Q{Cm{Z}, Cm{X}}; T = Q; vf_check(Q.first.V == Z && Q.second.V == X, "the source of a copy keeps its elements"); vf_check(T.get<A>().V == Z && T.get<B>().V == X, "the elements are copied"); break; }
    }
    break; }
  case 1: {
    vf_event("tuple");
    using P = tagged_tuple<CA, CB>;
    P S(X, Y), T(Z, W), R(S);
    const P &CS = S;
    BOTH(S, R, .get<A>().V, .get<B>().V, X, Y)
    switch (vf_nondet(4)) {
    case 0: T = S; break;
    case 1: T = CS; break;
    case 2: { Cm M(X), N(Y); P Q(M, N); vf_check(M.V == X && N.V == Y, "the source of a copy keeps its elements"); BOTH(S, Q, .get<A>().V, .get<B>().V, X, Y) T = Q; break; }
    case 3: { std::tuple<Cm, Cm> Q{Cm{X}, Cm{Y}}; T = Q; vf_check(std::get<0>(Q).V == X && std::get<1>(Q).V == Y, "the source of a copy keeps its elements"); break; }
    }
    BOTH(S, T, .get<A>().V, .get<B>().V, X, Y)
    break; }
  case 2: {
    vf_event("convertible pair");
    using P = convertible_pair<Cm, long>;
    P S(X, Y), T(Z, W);
    const P &CS = S;
    P R(S), Q(CS);
    BOTH(S, R, .first.V, .second, X, Y)
    BOTH(S, Q, .first.V, .second, X, Y)
    if (vf_nondet(2)) T = S; else T = CS;
    BOTH(S, T, .first.V, .second, X, Y)
    break; }
  }
}
// -- tuple ---------------------------------------------------------------------------
static void hasT(Tuple &T, long X, char *Y, long Z) {
  const Tuple &CT = T;
  vf_check(T.get<A>() == X && T.get<A2>() == X && T.get<B>() == Y && T.get<C>() == Z && T.get<C2>() == Z && T.get<C3>() == Z, "each tag denotes its element");
  vf_check(CT.get<A>() == X && CT.get<A2>() == X && CT.get<B>() == Y && CT.get<C>() == Z && CT.get<C2>() == Z && CT.get<C3>() == Z, "each tag denotes its element");
  vf_check(std::get<0>(T) == X && std::get<1>(T) == Y && std::get<2>(T) == Z, "a tagged tuple is a tuple");
}
struct Visit {
  long *X; char **Y; long *Z; int *N;
  void mark(int I) { vf_check(*N == I, "each element is visited once and in order"); ++*N; }
  template<class T> void operator()(long &V) { mark(same<T, TA>() ? 0 : 2); (same<T, TA>() ? *X : *Z) = V; V = 7; }
  template<class T> void operator()(char *&V) { mark(1); *Y = V; V = nullptr; static_assert(same<T, TB>(), ""); }
  template<class T> void operator()(const long &V) { mark(same<T, TA>() ? 0 : 2); (same<T, TA>() ? *X : *Z) = V; }
  template<class T> void operator()(char *const &V) { mark(1); *Y = V; }
};
// A visitor with a state of its own.
struct Counting {
  long S = 0; int N = 0;
  template<class T> void operator()(long V) { ++N; S = V; }
  template<class T> void operator()(char *) { N += 10; }
  void operator()(long V) { ++N; S = V; }
  void operator()(char *) { N += 10; }
};
extern "C" void drv_tuple() {
  long X = vf_any("x"), Z = vf_any("z"), V = vf_any("v");
  auto *Y = (char *)vf_token("y");
  Tuple T(X, Y, Z);
  hasT(T, X, Y, Z);
  long VX, VZ;
  char *VY;
  int N = 0;
  switch (vf_nondet(7)) {
  case 6: { vf_event("state"); Counting F; const Tuple &CT = T; for_each(T, F); vf_check(F.N == 12 && F.S == Z, "the visitor is not copied"); for_each(CT, F); vf_check(F.N == 24 && F.S == Z, "the visitor is not copied"); break; }
  case 0: vf_event("write"); T.get<C2>() = V; hasT(T, X, Y, V); break;
  case 1: vf_event("write"); T.get<A>() = V; hasT(T, V, Y, Z); T.get<B>() = nullptr; hasT(T, V, nullptr, Z); break;
  case 2: { vf_event("for_each"); for_each(T, Visit{&VX, &VY, &VZ, &N}); vf_check(N == 3 && VX == X && VY == Y && VZ == Z, "each element is visited with its tag"); hasT(T, 7, nullptr, 7); break; }
  case 3: { vf_event("for_each const"); const Tuple &CT = T; for_each(CT, Visit{&VX, &VY, &VZ, &N}); vf_check(N == 3 && VX == X && VY == Y && VZ == Z, "each element is visited with its tag"); hasT(T, X, Y, Z); break; }
  case 4: { vf_event("copy"); Tuple U(T); hasT(U, X, Y, Z); U.get<A>() = V; hasT(T, X, Y, Z); U = T; hasT(U, X, Y, Z); break; }
  case 5: { vf_event("one type"); typename tags::get_tagged_tuple<long, A, B>::type U(X, Z); vf_check((U.get<A>() == X && U.get<B>() == Z) || (U.get<A>() == Z && U.get<B>() == X), "a tuple of one type has an element for each tag"); U.get<B>() = V; U.get<A>() = X; vf_check(U.get<B>() == V && U.get<A>() == X, "a tuple of one type has an element for each tag"); break; }
  }
}
// -- std::tuple ------------------------------------------------------------------------
struct VisitStd {
  long *X; char **Y; long *Z; int *N;
  void operator()(long &V) { vf_check(*N == 0 || *N == 2, "each element is visited once and in order"); (*N == 0 ? *X : *Z) = V; ++*N; V = 7; }
  void operator()(char *&V) { vf_check(*N == 1, "each element is visited once and in order"); ++*N; *Y = V; V = nullptr; }
  void operator()(const long &V) { vf_check(*N == 0 || *N == 2, "each element is visited once and in order"); (*N == 0 ? *X : *Z) = V; ++*N; }
  void operator()(char *const &V) { vf_check(*N == 1, "each element is visited once and in order"); ++*N; *Y = V; }
};
static_assert(tuple_empty<std::tuple<>>::value && !tuple_empty<std::tuple<int>>::value, "empty tuples are recognised");
extern "C" void drv_std() {
  long X = vf_any("x"), Z = vf_any("z"), V = vf_any("v");
  auto *Y = (char *)vf_token("y");
  std::tuple<long, char *, long> T(X, Y, Z);
  const auto &CT = T;
  long VX, VZ;
  char *VY;
  int N = 0;
  switch (vf_nondet(7)) {
  case 6: { vf_event("state"); Counting F; bcl::for_each(T, F); vf_check(F.N == 12 && F.S == Z, "the visitor is not copied"); bcl::for_each(CT, F); vf_check(F.N == 24 && F.S == Z, "the visitor is not copied"); break; }
  case 0: vf_event("for_each"); bcl::for_each(T, VisitStd{&VX, &VY, &VZ, &N}); vf_check(N == 3 && VX == X && VY == Y && VZ == Z, "each element is visited once and in order");
    vf_check(std::get<0>(T) == 7 && !std::get<1>(T) && std::get<2>(T) == 7, "elements can be changed"); break;
  case 1: vf_event("for_each const"); bcl::for_each(CT, VisitStd{&VX, &VY, &VZ, &N}); vf_check(N == 3 && VX == X && VY == Y && VZ == Z, "each element is visited once and in order"); break;
  case 2: { vf_event("forward_as_args"); int R = forward_as_args(T, [&](long &P, char *&Q, long &S) { VX = P; VY = Q; VZ = S; S = V; return 5; }); vf_check(R == 5 && VX == X && VY == Y && VZ == Z && std::get<2>(T) == V, "the elements are passed in order"); break; }
  case 3: { vf_event("forward_as_args const"); const long &R = forward_as_args(CT, [&](const long &P, char *const &Q, const long &S) -> const long & { VX = P; VY = Q; VZ = S; return S; }); vf_check(&R == &std::get<2>(T) && VX == X && VY == Y && VZ == Z, "the elements are passed in order"); break; }
  case 4: { vf_event("empty"); std::tuple<> E; bcl::for_each(E, VisitStd{&VX, &VY, &VZ, &N}); vf_check(N == 0, "an empty tuple has no elements"); break; }
  case 5: {
    vf_event("convertible pair");
    using CP = convertible_pair<long, char *>;
    CP P(X, Y);
    const CP &K = P;
    long &F = P; char *&S = P; const long &KF = K; char *const &KS = K;
    vf_check(&F == &P.first && &S == &P.second && &KF == &P.first && &KS == &P.second && P.first == X && P.second == Y, "a pair converts to references to its elements");
    CP Q(V, nullptr);
    CP &R = (Q = P);
    vf_check(&R == &Q && Q.first == X && Q.second == Y, "a pair can be assigned");
    break; }
  }
}
