#include "vf.h"
#include <cassert>
#include <cstddef>
#include <map>
#include <vector>
#include <utility>
#include <bcl/cell.h>
#include <bcl/trait.h>
using namespace bcl;
struct K1 { using ValueType = long; static constexpr int I = 0; };
struct K2 { using ValueType = char *; static constexpr int I = 1; };
struct K3 { using ValueType = long; static constexpr int I = 2; };
struct K4 { using ValueType = short; static constexpr int I = 3; };
using M3 = StaticMap<K1, K2, K3>;

// -- types -----------------------------------------------------------------------
template<class X, class Y> constexpr bool same() { return std::is_same<X, Y>::value; }
using L = TypeList<int, char, long>;
static_assert(L::size_of() == 3 && TypeList<>::size_of() == 0 && L::index_of<int>() == 0 && L::index_of<char>() == 1 && L::index_of<long>() == 2, "positions in type lists");
static_assert(IsTypeExist<char, L>::value && IsTypeExist<long, L>::value && !IsTypeExist<short, L>::value && !IsTypeExist<int, TypeList<>>::value, "membership in type lists");
static_assert(same<MergeTypeLists<L, TypeList<short, int>>::Type, TypeList<int, char, long, short, int>>(), "concatenation of type lists");
static_assert(same<IntersectTypeLists<L, TypeList<long, short, int>>::Type, TypeList<int, long>>() && same<IntersectTypeLists<L, TypeList<>>::Type, TypeList<>>(), "intersection of type lists");
static_assert(same<RemoveFromTypeList<char, L>::Type, TypeList<int, long>>() && same<RemoveFromTypeList<int, TypeList<int, char, int>>::Type, TypeList<char>>() && same<RemoveFromTypeList<short, L>::Type, L>(), "removal from type lists");
template<class X> using RD = typename RemoveDuplicate<X>::Type;
using Dup = RD<TypeList<int, char, int, long, char, int>>;
static_assert(Dup::size_of() == 3 && IsTypeExist<int, Dup>::value && IsTypeExist<char, Dup>::value && IsTypeExist<long, Dup>::value && same<RD<L>, L>() && same<RD<TypeList<>>, TypeList<>>(), "duplicates are removed from type lists");
template<class...> struct Target {};
static_assert(same<ForwardTypeList<Target, L>::Type, Target<int, char, long>>(), "type lists are forwarded");
static_assert(IsCellExist<M3, K1>::value && IsCellExist<M3, K2>::value && IsCellExist<M3, K3>::value && !IsCellExist<M3, K4>::value && !IsCellExist<StaticMap<>, K1>::value, "keys of a map are found");
static_assert(same<IsCellExist<M3, K2>::Cell::CellKey, K2>() && same<IsCellExist<M3, K4>::Cell, StaticMap<>>(), "the cell of a key is found");
static_assert(same<ReverseCell<M3>::Result, StaticMap<K3, K2, K1>>() && same<ReverseCell<StaticMap<>>::Result, StaticMap<>>(), "maps are reversed");
static_assert(same<MergeCell<StaticMap<K1, K2>, StaticMap<K3, K4>>::Result, StaticMap<K1, K2, K3, K4>>() && same<MergeCell<M3, StaticMap<>>::Result, M3>() && same<MergeCell<StaticMap<>, M3>::Result, M3>(), "maps are merged");
static_assert(StaticMap<>::empty() && !M3::empty() && !StaticMap<K1>::empty() && !StaticMap<K1, K2>::empty(), "emptiness of maps");
static_assert(!std::is_convertible<long, StaticMap<K1>>::value, "a map is constructed explicitly");

// -- static maps -------------------------------------------------------------------
struct Seen {
  int N;
  int Order[4];
};
struct ForKeys {
  Seen *S;
  template<class Cell> void operator()() { S->Order[S->N++] = Cell::CellKey::I; }
};
struct ForCells {
  Seen *S;
  template<class Cell> void operator()(Cell *C) {
    using Key = typename Cell::CellKey;
    S->Order[S->N++] = Key::I;
    C->template value<Key>() = (typename Key::ValueType)(long)(100 + Key::I);
  }
};
struct ForConstCells {
  Seen *S;
  template<class Cell> void operator()(const Cell *C) { S->Order[S->N++] = Cell::CellKey::I; }
};
// Functors which keep their state themselves: the object the user passed is the one that visits each cell.
struct Own {
  Seen S{};
  Own() = default;
  Own(const Own &) = delete;
  template<class Cell> void operator()() { S.Order[S.N++] = Cell::CellKey::I; }
  template<class Cell> void operator()(Cell *C) { S.Order[S.N++] = std::remove_const_t<Cell>::CellKey::I; }
};
struct Light {      // the same, for functors that can be copied
  Seen S{};
  template<class Cell> void operator()() { S.Order[S.N++] = Cell::CellKey::I; }
  template<class Cell> void operator()(Cell *C) { S.Order[S.N++] = std::remove_const_t<Cell>::CellKey::I; }
};
static void inOrder(const Seen &S) {
  vf_check(S.N == 3 && S.Order[0] == 0 && S.Order[1] == 1 && S.Order[2] == 2, "each cell is visited once in the order of the keys");
}
static void has(M3 &X, long A, char *B, long C) {
  const M3 &Y = X;
  vf_check(X.value<K1>() == A && X.value<K2>() == B && X.value<K3>() == C, "each key has the value that was stored for it");
  vf_check(Y.value<K1>() == A && Y.value<K2>() == B && Y.value<K3>() == C, "each key has the value that was stored for it");
  vf_check(X[K1()] == A && X[K2()] == B && X[K3()] == C && Y[K1()] == A && Y[K2()] == B && Y[K3()] == C, "each key has the value that was stored for it");
}
extern "C" void drv_map() {
  long A = vf_any("a"), C = vf_any("c");
  auto *B = (char *)vf_token("b");
  M3 X(A, B, C);
  has(X, A, B, C);
  switch (vf_nondet(9)) {
  case 7: {
    vf_event("functors with a state");
    Light F, G, H;
    const M3 &Y = X;
    M3::for_each_key(F);
    inOrder(F.S);
    X.for_each(G);
    inOrder(G.S);
    Y.for_each(H);
    inOrder(H.S);
    break; }
  case 8: {
    vf_event("functors that cannot be copied");
    Own F, G, H;
    const M3 &Y = X;
    M3::for_each_key(F);
    inOrder(F.S);
    X.for_each(G);
    inOrder(G.S);
    Y.for_each(H);
    inOrder(H.S);
    break; }
  case 0: { vf_event("value"); long V = vf_any("v"); X.value<K1>() = V; has(X, V, B, C); X[K3()] = V; has(X, V, B, V); break; }
  case 1: { vf_event("operator[]"); auto *V = (char *)vf_token("v"); X[K2()] = V; has(X, A, V, C); break; }
  case 2: { vf_event("for_each_key"); Seen S{}; M3::for_each_key(ForKeys{&S}); inOrder(S); has(X, A, B, C); break; }
  case 3: { vf_event("for_each"); Seen S{}; X.for_each(ForCells{&S}); inOrder(S); has(X, 100, (char *)101, 102); break; }
  case 4: { vf_event("for_each const"); const M3 &Y = X; Seen S{}; Y.for_each(ForConstCells{&S}); inOrder(S); has(X, A, B, C); break; }
  case 5: { vf_event("copy"); M3 Y(X); has(Y, A, B, C); Y.value<K1>() = vf_any("v"); has(X, A, B, C); Y = X; has(Y, A, B, C); break; }
  case 6: { vf_event("empty"); StaticMap<> E; Seen S{}; StaticMap<>::for_each_key(ForKeys{&S}); E.for_each(ForCells{&S}); vf_check(S.N == 0, "an empty map has no cells"); break; }
  }
}
// -- maps with types or traits as keys -----------------------------------------------
struct TypeKeys {
  Seen *S;
  template<class T> void mark(int I) { S->N++; S->Order[I]++; }
  template<class T> void operator()() { S->N++; S->Order[same<T, long>() ? 0 : same<T, char *>() ? 1 : 2]++; }
  void operator()(long &V) { S->N++; S->Order[0]++; V = 100; }
  void operator()(char *&V) { S->N++; S->Order[1]++; V = (char *)101; }
  void operator()(short &V) { S->N++; S->Order[2]++; V = 102; }
};
struct TypeSeen {
  Seen *S;
  void operator()(const long &V) { S->N++; S->Order[0]++; }
  void operator()(char *const &V) { S->N++; S->Order[1]++; }
  void operator()(const short &V) { S->N++; S->Order[2]++; }
};
struct TypeState {
  Seen S{};
  template<class T> void operator()() { S.N++; S.Order[same<T, long>() ? 0 : same<T, char *>() ? 1 : 2]++; }
  void operator()(const long &V) { S.N++; S.Order[0]++; }
  void operator()(char *const &V) { S.N++; S.Order[1]++; }
  void operator()(const short &V) { S.N++; S.Order[2]++; }
};
static void once(const Seen &S) {
  vf_check(S.N == 3 && S.Order[0] == 1 && S.Order[1] == 1 && S.Order[2] == 1, "each cell is visited once");
}
using TM = StaticTypeMap<long, char *, short>;
static void hasT(TM &X, long A, char *B, short C) {
  const TM &Y = X;
  vf_check(X.value<long>() == A && X.value<char *>() == B && X.value<short>() == C, "each type has the value that was stored for it");
  vf_check(Y.value<long>() == A && Y.value<char *>() == B && Y.value<short>() == C, "each type has the value that was stored for it");
  vf_check(X[long()] == A && Y[(char *)nullptr] == B && Y[short()] == C, "each type has the value that was stored for it");
}
extern "C" void drv_typemap() {
  long A = vf_any("a");
  short C = (short)vf_any("c");
  auto *B = (char *)vf_token("b");
  TM X;
  X.value<short>() = C;
  X[long()] = A;
  X.value<char *>() = B;
  hasT(X, A, B, C);
  switch (vf_nondet(4)) {
  case 3: {
    vf_event("functors with a state");
    TypeState F, G;
    TM::for_each_key(F);
    once(F.S);
    X.for_each(G);
    once(G.S);
    const TM &Y = X;
    TypeState H;
    Y.for_each(H);
    once(H.S);
    Seen S{};
    Y.for_each(TypeSeen{&S});
    once(S);
    break; }
  case 0: { vf_event("for_each_key"); Seen S{}; TM::for_each_key(TypeKeys{&S}); once(S); hasT(X, A, B, C); break; }
  case 1: { vf_event("for_each"); Seen S{}; X.for_each(TypeKeys{&S}); once(S); hasT(X, 100, (char *)101, 102); break; }
  case 2: { vf_event("copy"); TM Y(X); hasT(Y, A, B, C); Y.value<long>() = vf_any("v"); hasT(X, A, B, C); break; }
  }
}
struct TA { static constexpr int I = 0; }; struct TB { static constexpr int I = 1; }; struct TC { static constexpr int I = 2; };
using D = TraitDescriptor<TA, TraitAlternative<TB, TC>>;
struct Bag {
  D *E[2];
  int N = 0;
  void push_back(D *X) { E[N++] = X; }
};
struct TraitKeys {
  Seen *S;
  template<class T> void operator()() { S->N++; S->Order[T::I]++; }
  template<class T> void operator()(long &V) { S->N++; S->Order[T::I]++; V = 100 + T::I; }
};
struct TraitState {
  Seen S{};
  template<class T> void operator()() { S.N++; S.Order[T::I]++; }
  template<class T> void operator()(const long &V) { S.N++; S.Order[T::I]++; }
};
struct TypeVisit {
  Seen S{};
  template<class T> void operator()() { S.Order[S.N++] = same<T, int>() ? 0 : same<T, char>() ? 1 : 2; }
};
extern "C" void drv_types() {
  TypeVisit F;
  L::for_each_type(F);
  inOrder(F.S);
}
extern "C" void drv_traitmap() {
  switch (vf_nondet(2)) {
  case 0: {
    vf_event("values of traits");
    StaticTraitMap<long, D> X;
    const auto &Y = X;
    long A = vf_any("a"), B = vf_any("b"), C = vf_any("c");
    X.value<TA>() = A;
    X[TB()] = B;
    X.value<TC>() = C;
    vf_check(X.value<TA>() == A && Y.value<TB>() == B && Y[TC()] == C && X[TA()] == A && X.value<TC>() == C && Y.value<TA>() == A, "each trait has the value that was stored for it");
    Seen S{};
    StaticTraitMap<long, D>::for_each_key(TraitKeys{&S});
    once(S);
    Seen T{};
    X.for_each(TraitKeys{&T});
    once(T);
    TraitState F, G;
    StaticTraitMap<long, D>::for_each_key(F);
    once(F.S);
    X.for_each(G);
    once(G.S);
    TraitState H;
    Y.for_each(H);
    once(H.S);
    vf_check(X.value<TA>() == 100 && X.value<TB>() == 101 && X.value<TC>() == 102, "each cell is visited with its own trait");
    break; }
  case 1: {
    vf_event("distribution");
    StaticTraitMap<Bag, D> X;
    D Y;
    unsigned M = vf_nondet(6);
    if (M & 1) Y.set<TA>();
    if (M & 2) Y.set<TB>();
    if (M & 4) Y.set<TC>();
    TraitMapConstructor<D, StaticTraitMap<Bag, D>> F(Y, X);
    vf_check(&F.getTraitMap() == &X && &F.getTraitSet() == &Y, "the functor knows its map and set");
    Y.for_each(F);
    vf_check(X.value<TA>().N == int(M & 1) && X.value<TB>().N == int(M >> 1 & 1) && X.value<TC>().N == int(M >> 2 & 1), "a set is inserted for exactly the traits it contains");
    vf_check((!X.value<TA>().N || X.value<TA>().E[0] == &Y) && (!X.value<TB>().N || X.value<TB>().E[0] == &Y) && (!X.value<TC>().N || X.value<TC>().E[0] == &Y), "the inserted set is the given one");
    break; }
  }
}
// -- functors ------------------------------------------------------------------------
struct Val {     // a value which shows whether it was moved from
  long V = 0;
  bool Moved = false;
  Val() = default;
  explicit Val(long V) : V(V) {}
  static int Copies;
  Val(const Val &O) : V(O.V) { ++Copies; }
  Val &operator=(const Val &O) { V = O.V; Moved = false; ++Copies; return *this; }
  Val(Val &&O) : V(O.V) { O.Moved = true; }
  Val &operator=(Val &&O) { V = O.V; Moved = false; O.Moved = true; return *this; }
};
int Val::Copies = 0;
struct V1 { using ValueType = Val; }; struct V2 { using ValueType = Val; }; struct V3 { using ValueType = Val; }; struct V4 { using ValueType = Val; };
using From = StaticMap<V1, V2, V3>;
using To = StaticMap<V3, V4, V1>;
static int Dead;
struct Obj { ~Obj() { ++Dead; } };
struct P1 { using ValueType = Obj *; }; struct P2 { using ValueType = long; }; struct P3 { using ValueType = Obj *; };
extern "C" void drv_functors() {
  long A = vf_any("a"), B = vf_any("b"), C = vf_any("c"), E = vf_any("e"), F = vf_any("f"), G = vf_any("g");
  From X(Val{A}, Val{B}, Val{C});
  To Y(Val{E}, Val{F}, Val{G});
  bool Move = false;
  Val::Copies = 0;
  switch (vf_nondet(6)) {
  case 0: vf_event("copy to"); Y.for_each(CopyToCellFunctor<From>(&X)); break;
  case 1: vf_event("copy from"); X.for_each(CopyFromCellFunctor<To>(&Y)); break;
  case 2: vf_event("move to"); Y.for_each(MoveToCellFunctor<From>(&X)); Move = true; break;
  case 3: vf_event("move from"); X.for_each(MoveFromCellFunctor<To>(&Y)); Move = true; break;
  case 4: {
    vf_event("clear");
    StaticMap<P1, P2, P3> Z(vf_nondet(2) ? new Obj : nullptr, A, new Obj);
    int N = (Z.value<P1>() != nullptr) + 1;
    Dead = 0;
    Z.for_each(ClearCellFunctor());
    vf_check(Dead == N && Z.value<P2>() == A, "exactly the objects of pointer cells are deleted");
    return; }
  case 5: {
    vf_event("init");
    Obj O;
    StaticMap<P1, P2, P3> Z(&O, A, &O);
    Z.for_each(InitCellFunctor());
    vf_check(!Z.value<P1>() && !Z.value<P3>() && Z.value<P2>() == A, "exactly the pointer cells are reset");
    return; }
  }
  vf_check(Y.value<V1>().V == A && Y.value<V3>().V == C, "the value of each common cell is transferred");
  vf_check(Y.value<V4>().V == F && X.value<V2>().V == B && !X.value<V2>().Moved && !Y.value<V4>().Moved, "cells without counterpart are untouched");
  vf_check(!Y.value<V1>().Moved && !Y.value<V3>().Moved, "the value of each common cell is transferred");
  if (Move)
    vf_check(Val::Copies == 0, "values are moved if this was requested");
  else
    vf_check(X.value<V1>().V == A && X.value<V3>().V == C && !X.value<V1>().Moved && !X.value<V3>().Moved, "the source of a copy keeps its values");
}
