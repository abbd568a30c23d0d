#include "vf.h"
#include <cassert>
#include <cstddef>
#include <map>
#include <vector>
#include <utility>
#include <bcl/trait.h>
using bcl::TraitDescriptor; using bcl::TraitAlternative; using bcl::TraitUnion; using bcl::TraitSet; using bcl::TraitKey; using bcl::TypeList; using bcl::tagged;
namespace trait = bcl::trait;
using trait::is_conflict; using trait::find_group_t; using trait::find_union_t; using trait::is_contained; using trait::Is; using trait::IsAny;
// Two descriptors.  The conflicts of traits are written down by hand: traits of one group of alternatives conflict
// unless some union of it contains both.
enum { NT = 8 };
#define TRAIT(n, i) struct n { static constexpr int I = i; }
TRAIT(A, 0); TRAIT(B, 1); TRAIT(C, 2); TRAIT(D, 3); TRAIT(E, 4); TRAIT(F, 5); TRAIT(G, 6); TRAIT(H, 7);
using Dsc = TraitDescriptor<A, TraitAlternative<B, C>, TraitUnion<D, E>, TraitAlternative<TraitUnion<F, G>, TraitUnion<G, H>>>;
static constexpr unsigned Conflict[NT] = {0, 1u << 2, 1u << 1, 0, 0, 1u << 7, 0, 1u << 5};
static constexpr unsigned Group[NT] = {1, 6, 6, 0x18, 0x18, 0xe0, 0xe0, 0xe0};
template<class T> constexpr unsigned bit() { return 1u << T::I; }
template<class... T> constexpr unsigned bits() { return (bit<T>() | ...); }

// -- types ---------------------------------------------------------------------
template<class X, class Y> constexpr bool conf() { return is_conflict<X, Y, Dsc>::value; }
static_assert(conf<B, C>() && conf<C, B>() && conf<F, H>() && conf<H, F>(), "conflicting traits are recognised");
static_assert(!conf<A, B>() && !conf<A, H>() && !conf<D, E>() && !conf<F, G>() && !conf<G, H>() && !conf<H, G>() && !conf<B, B>() &&
              !conf<G, F>() && !conf<C, D>() && !conf<E, F>(), "compatible traits do not conflict");
static_assert(is_contained<A, Dsc>::value && is_contained<C, Dsc>::value && is_contained<E, Dsc>::value && is_contained<H, Dsc>::value &&
              !is_contained<int, Dsc>::value, "traits of a descriptor are recognised");
static_assert(std::is_same<find_group_t<G, Dsc>, TraitAlternative<TraitUnion<F, G>, TraitUnion<G, H>>>::value &&
              std::is_same<find_group_t<A, Dsc>, A>::value && std::is_same<find_group_t<E, Dsc>, TraitUnion<D, E>>::value,
              "the group of a trait is found");
static_assert(std::is_same<find_union_t<G, TraitAlternative<TraitUnion<F, G>, TraitUnion<G, H>>>, TypeList<TraitUnion<F, G>, TraitUnion<G, H>>>::value,
              "the unions of a trait are found");

// -- keys ------------------------------------------------------------------------
template<class T> static void key(TraitKey &All) {
  constexpr TraitKey K = Dsc::getKey<T>();
  vf_check(K && !(K & (K - 1)), "a key is a single bit");
  vf_check(!(All & K), "keys are unique");
  vf_check((Dsc::getMask<T>() & K) == K, "the mask of a group contains the keys of its traits");
  All |= K;
}
extern "C" void drv_keys() {
  TraitKey All = 0;
  key<A>(All); key<B>(All); key<C>(All); key<D>(All); key<E>(All); key<F>(All); key<G>(All); key<H>(All);
  vf_check(Dsc::getMask<A>() == Dsc::getKey<A>(), "the mask of a group is the union of its keys");
  vf_check((Dsc::getMask<B>() == Dsc::joinKey<B, C>()) && (Dsc::getMask<C>() == Dsc::joinKey<B, C>()), "the mask of a group is the union of its keys");
  vf_check((Dsc::getMask<D>() == Dsc::joinKey<D, E>()) && (Dsc::getMask<E>() == Dsc::joinKey<D, E>()), "the mask of a group is the union of its keys");
  vf_check((Dsc::getMask<F>() == Dsc::joinKey<F, G, H>()) && (Dsc::getMask<G>() == Dsc::joinKey<F, G, H>()) && (Dsc::getMask<H>() == Dsc::joinKey<F, G, H>()), "the mask of a group is the union of its keys");
  vf_check((Dsc::joinKey<A, E, H>() == (Dsc::getKey<A>() | Dsc::getKey<E>() | Dsc::getKey<H>())), "joined keys are the union of the keys");
  vf_check((Dsc::joinMask<A, C, H>() == (Dsc::getMask<A>() | Dsc::getMask<C>() | Dsc::getMask<H>())), "joined masks are the union of the masks");
  vf_check((Dsc::joinConflict<B, F>() == Dsc::joinKey<C, H>()) && Dsc::joinConflict<A>() == 0, "joined conflicts are the keys of the conflicting traits");
}

// -- descriptor ------------------------------------------------------------------
struct Collect {
  unsigned *M;
  template<class T> void operator()() {
    vf_check(!(*M & bit<T>()), "a trait is visited once");
    *M |= bit<T>();
  }
};
struct Keep {       // the functor the user passed visits the traits, not a copy of it
  unsigned M = 0;
  Keep() = default;
  Keep(const Keep &) = delete;
  template<class T> void operator()() {
    vf_check(!(M & bit<T>()), "a trait is visited once");
    M |= bit<T>();
  }
};
struct State {
  unsigned M = 0;
  template<class T> void operator()() { M |= bit<T>(); }
};
template<class Fn, class S> static void states(const S &X, unsigned M, unsigned All) {
  Fn F, G;
  X.for_each(F);
  vf_check(F.M == M, "for_each() visits the set traits");
  S::for_each_available(G);
  vf_check(G.M == All, "for_each_available() visits all traits");
}
template<class T> static void observe1(const Dsc &X, unsigned M) {
  vf_check(X.is<T>() == bool(M & bit<T>()), "exactly the traits that were set (and not unset) are set");
  vf_check(X.is_any<T>() == bool(M & bit<T>()), "exactly the traits that were set (and not unset) are set");
}
static void observe(const Dsc &X, unsigned M) {
  observe1<A>(X, M); observe1<B>(X, M); observe1<C>(X, M); observe1<D>(X, M); observe1<E>(X, M); observe1<F>(X, M); observe1<G>(X, M); observe1<H>(X, M);
}
template<class... T> static void multi(const Dsc &X, unsigned M) {
  vf_check((X.is<T...>() == ((M & bits<T...>()) == bits<T...>())), "is() tells whether all traits are set");
  vf_check((X.is_any<T...>() == bool(M & bits<T...>())), "is_any() tells whether some trait is set");
  vf_check((Is<T...>::is(X) == ((M & bits<T...>()) == bits<T...>())), "Is tells whether all traits are set");
  vf_check((IsAny<T...>::is_any(X) == bool(M & bits<T...>())), "IsAny tells whether some trait is set");
}
template<class T> static void visit(const Dsc &X, unsigned M) {
  unsigned N = 0;
  X.for_each_conflict<T>(Collect{&N});
  vf_check(N == (M & Conflict[T::I]), "for_each_conflict() visits the set traits that conflict");
  N = 0;
  X.for_each_in_group<T>(Collect{&N});
  vf_check(N == (M & Group[T::I]), "for_each_in_group() visits the set traits of the group");
}
static void visits(const Dsc &X, unsigned M) {
  unsigned N = 0;
  X.for_each(Collect{&N});
  vf_check(N == M, "for_each() visits the set traits");
  N = 0;
  Dsc::for_each_available(Collect{&N});
  vf_check(N == 0xff, "for_each_available() visits all traits");
  visit<A>(X, M); visit<B>(X, M); visit<C>(X, M); visit<D>(X, M); visit<E>(X, M); visit<F>(X, M); visit<G>(X, M); visit<H>(X, M);
  states<Keep>(X, M, 0xff);
  states<State>(X, M, 0xff);
  State S1, S2;
  X.for_each_conflict<H>(S1);
  X.for_each_in_group<H>(S2);
  vf_check(S1.M == (M & Conflict[H::I]) && S2.M == (M & Group[H::I]), "traits are visited with the functor of the user");
  multi<A, C>(X, M); multi<D, E>(X, M); multi<F, G, A>(X, M); multi<H, B>(X, M); multi<G, H>(X, M);
}
template<class T> static void setUnset(Dsc &X, unsigned &M) {
  switch (vf_nondet(3)) {
  case 0: vf_event("set"); X.set<T>(); M = (M & ~Conflict[T::I]) | bit<T>(); break;
  case 1: vf_event("unset"); X.unset<T>(); M &= ~bit<T>(); break;
  case 2: vf_event("unset_group"); X.unset_group<T>(); M &= ~Group[T::I]; break;
  }
}
static void many(Dsc &X, unsigned &M) {
  switch (vf_nondet(8)) {
  case 0: vf_event("set several"); X.set<A, C, E>(); M = (M & ~Conflict[C::I]) | bits<A, C, E>(); break;
  case 1: vf_event("set several"); X.set<F, G>(); M = (M & ~Conflict[F::I]) | bits<F, G>(); break;
  case 2: vf_event("unset several"); X.unset<B, D, G>(); M &= ~bits<B, D, G>(); break;
  case 3: vf_event("unset several groups"); X.unset_group<A, F>(); M &= ~(Group[0] | Group[5]); break;
  case 4: vf_event("unset_all"); X.unset_all(); M = 0; break;
  case 5: vf_event("set list"); trait::set<G, H, D>(X); M = (M & ~Conflict[H::I]) | bits<G, H, D>(); break;
  case 6: vf_event("unset list"); trait::unset<A, H>(X); M &= ~bits<A, H>(); break;
  case 7: {
    vf_event("copy");
    Dsc Y(X);
    observe(Y, M);
    vf_check(X == Y && !(X != Y), "copies are equal");
    Y.unset<A>();
    vf_check((X == Y) == !(M & 1) && (X != Y) == bool(M & 1), "different descriptors are not equal");
    Y.set<A>();
    vf_check((X == Y) == bool(M & 1) && (X != Y) == !(M & 1), "different descriptors are not equal");
    observe(X, M);
    X = Y;
    M |= 1;
    break; }
  }
}
static void change(Dsc &X, unsigned &M) {
  switch (vf_nondet(9)) {
  case 0: setUnset<A>(X, M); break;
  case 1: setUnset<B>(X, M); break;
  case 2: setUnset<C>(X, M); break;
  case 3: setUnset<D>(X, M); break;
  case 4: setUnset<E>(X, M); break;
  case 5: setUnset<F>(X, M); break;
  case 6: setUnset<G>(X, M); break;
  case 7: setUnset<H>(X, M); break;
  case 8: many(X, M); break;
  }
}
extern "C" void drv_descriptor() {
  Dsc X;
  unsigned M = 0;
  observe(X, M);
  while (vf_nondet(2)) {
    change(X, M);
    observe(X, M);
  }
  visits(X, M);
}
// Transfer between descriptors with different traits.
using Dst = TraitDescriptor<TraitAlternative<B, C>, H, TraitUnion<A, int>>;
extern "C" void drv_transfer() {
  Dsc X;
  unsigned M = 0;
  while (vf_nondet(2))
    switch (vf_nondet(8)) {
    case 0: setUnset<A>(X, M); break;
    case 1: setUnset<B>(X, M); break;
    case 2: setUnset<C>(X, M); break;
    case 3: setUnset<H>(X, M); break;
    case 4: setUnset<E>(X, M); break;
    default: vf_halt();
    }
  Dst Y;
  unsigned N = 0;
  if (vf_nondet(2)) { Y.set<A>(); N |= bit<A>(); }
  if (vf_nondet(2)) { Y.set<B>(); N |= bit<B>(); }
  if (vf_nondet(2)) { Y.set<int>(); N |= 0x100; }
  if (vf_nondet(2)) { Y.set<H>(); N |= bit<H>(); }
  if (vf_nondet(2)) {
    vf_event("transfer");
    trait::set(X, Y);
    if (M & bit<B>()) N = (N & ~bit<C>()) | bit<B>();
    if (M & bit<C>()) N = (N & ~bit<B>()) | bit<C>();
    N |= M & bits<A, H>();
  } else {
    vf_event("update");
    trait::update(X, Y);
    N = (N & 0x100) | (M & bits<A, B, C, H>());
  }
  vf_check(Y.is<A>() == bool(N & bit<A>()) && Y.is<B>() == bool(N & bit<B>()) && Y.is<C>() == bool(N & bit<C>()) &&
           Y.is<H>() == bool(N & bit<H>()) && Y.is<int>() == bool(N & 0x100), "common traits are transferred, the others keep their state");
  observe(X, M);
}

// -- trait set ---------------------------------------------------------------------
// A map with the interface common to std::map and llvm::DenseMap.
template<class V> class Map {
public:
  using value_type = std::pair<TraitKey, V>;
  using iterator = value_type *;
  using const_iterator = const value_type *;
  Map() = default;
  Map(const Map &) = delete;
  Map(Map &&O) : mSize(O.mSize) {
    for (int I = 0; I < O.mSize; ++I) mData[I] = O.mData[I];
    O.clear();
  }
  Map &operator=(Map &&O) {
    if (this == &O) return *this;
    clear();
    mSize = O.mSize;
    for (int I = 0; I < O.mSize; ++I) mData[I] = O.mData[I];
    O.clear();
    return *this;
  }
  iterator begin() { return mData; }
  iterator end() { return mData + mSize; }
  const_iterator begin() const { return mData; }
  const_iterator end() const { return mData + mSize; }
  bool empty() const { return mSize == 0; }
  std::size_t size() const { return mSize; }
  iterator find(TraitKey K) {
    for (int I = 0; I < mSize; ++I) if (mData[I].first == K) return mData + I;
    return end();
  }
  const_iterator find(TraitKey K) const { return const_cast<Map *>(this)->find(K); }
  std::size_t count(TraitKey K) const { return find(K) != end(); }
  void erase(iterator P) {
    vf_check(P != end(), "only elements are erased from the map of descriptions");
    for (int I = P - mData; I + 1 < mSize; ++I) mData[I] = mData[I + 1];
    mData[--mSize] = value_type();
  }
  std::size_t erase(TraitKey K) { auto I = find(K); if (I == end()) return 0; erase(I); return 1; }
  void clear() { while (mSize) mData[--mSize] = value_type(); }
  std::pair<iterator, bool> insert(const value_type &P) {
    int I = 0;
    while (I < mSize && mData[I].first < P.first) ++I;
    if (I < mSize && mData[I].first == P.first) return {mData + I, false};
    for (int J = mSize; J > I; --J) mData[J] = mData[J - 1];
    mData[I] = P;
    ++mSize;
    return {mData + I, true};
  }
  template<class... Args> std::pair<iterator, bool> emplace(Args &&...A) { return insert(value_type(std::forward<Args>(A)...)); }
  template<class... Args> std::pair<iterator, bool> try_emplace(TraitKey K, Args &&...A) { return insert(value_type(K, V(std::forward<Args>(A)...))); }
  V &operator[](TraitKey K) { return insert(value_type(K, V())).first->second; }
  void swap(Map &O) { Map T(std::move(O)); O = std::move(*this); *this = std::move(T); }
private:
  int mSize = 0;
  value_type mData[8];
};
// Descriptions: each kind counts its live objects.
static int Live[3];
struct P { static constexpr int I = 0; P() { ++Live[0]; } ~P() { --Live[0]; } long Pad; };
struct Q { static constexpr int I = 1; };
struct R { static constexpr int I = 2; R() { ++Live[2]; } ~R() { --Live[2]; } char Pad; };
struct QData { QData() { ++Live[1]; } ~QData() { --Live[1]; } int Pad[4]; };
using SDsc = TraitDescriptor<P, TraitAlternative<Q, R>>;
using Set = TraitSet<SDsc, Map<void *>, TypeList<tagged<QData, Q, struct QAlias>>>;
static_assert(std::is_same<decltype(std::declval<Set &>().get<Q>()), QData *>::value &&
              std::is_same<decltype(std::declval<Set &>().get<P>()), P *>::value, "descriptions have the requested type");
static_assert(!std::is_copy_constructible<Set>::value && !std::is_copy_assignable<Set>::value, "a set of traits owns its descriptions");
static_assert(is_conflict<Q, R, Set>::value && !is_conflict<P, R, Set>::value && is_contained<Q, Set>::value && !is_contained<int, Set>::value,
              "traits of a set are those of its descriptor");
struct SModel {
  unsigned M = 0;      // the set traits
  void *V[3] = {};     // their descriptions
  void drop(int I) { V[I] = nullptr; }
  void setT(int I) {
    if (I == 1) { drop(2); M &= ~4u; }
    if (I == 2) { drop(1); M &= ~2u; }
    M |= 1u << I;
  }
  void unset(int I) { drop(I); M &= ~(1u << I); }
  void clear() { for (int I = 0; I < 3; ++I) unset(I); }
};
template<class T> static void observeS1(Set &X, const SModel &M) {
  const Set &CX = X;
  vf_check(X.is<T>() == bool(M.M & bit<T>()) && X.is_any<T>() == bool(M.M & bit<T>()), "exactly the traits that were set (and not unset) are set");
  vf_check((void *)X.get<T>() == M.V[T::I] && (const void *)CX.get<T>() == M.V[T::I], "a trait has the description that was attached");
}
static void observeS(Set &X, const SModel &M) {
  observeS1<P>(X, M); observeS1<Q>(X, M); observeS1<R>(X, M);
  unsigned N = 0;
  X.for_each(Collect{&N});
  vf_check(N == M.M, "for_each() visits the set traits");
  states<State>(X, M.M, bit<P>() | bit<Q>() | bit<R>());
}
static void live(const SModel &M, const SModel &N) {
  for (int I = 0; I < 3; ++I)
    vf_check(Live[I] == (M.V[I] != nullptr) + (N.V[I] != nullptr), "exactly the attached descriptions exist");
}
template<class T, class Data> static void stepS(Set &X, SModel &M) {
  switch (vf_nondet(5)) {
  case 0: vf_event("set"); X.set<T>(); M.setT(T::I); break;
  case 1: vf_event("unset"); X.unset<T>(); M.unset(T::I); break;
  case 2: { vf_event("attach"); auto *V = new Data; X.set<T>(V); M.setT(T::I); M.V[T::I] = V; break; }
  case 3: vf_event("attach null"); X.set<T>(static_cast<Data *>(nullptr)); M.setT(T::I); M.V[T::I] = nullptr; break;
  case 4: { vf_event("release"); Data *V = X.release<T>(); vf_check(V == M.V[T::I], "release() returns the description"); delete V; M.V[T::I] = nullptr; break; }
  }
}
static void oneS(Set &X, SModel &M) {
  switch (vf_nondet(3)) {
  case 0: stepS<P, P>(X, M); break;
  case 1: stepS<Q, QData>(X, M); break;
  case 2: stepS<R, R>(X, M); break;
  }
}
static void manyS(Set &X, SModel &M) {
  switch (vf_nondet(5)) {
  case 0: vf_event("set several"); X.set<P, R>(); M.setT(0); M.setT(2); break;
  case 1: vf_event("unset several"); X.unset<P, Q>(); M.unset(0); M.unset(1); break;
  case 2: vf_event("unset_all"); X.unset_all(); M.clear(); break;
  case 3: { vf_event("assign descriptor"); SDsc Y; Y.set<Q>(); Set &T = (X = Y); vf_check(&T == &X, "assignment returns its target"); M.clear(); M.M = 2; break; }
  case 4: { vf_event("move descriptor"); SDsc Y; Y.set<P>(); Y.set<R>(); Set &T = (X = std::move(Y)); vf_check(&T == &X, "assignment returns its target"); M.clear(); M.M = 5; break; }
  }
}
extern "C" void drv_set() {
  SModel M, None;
  {
    SDsc Init;
    if (vf_nondet(2)) { Init.set<Q>(); M.M = 2; }
    Set X(Init);
    observeS(X, M);
    while (vf_nondet(2)) {
      if (vf_nondet(2)) oneS(X, M); else manyS(X, M);
      observeS(X, M);
      live(M, None);
    }
    SDsc Y = X.get(), Z = X;
    vf_check(Y.is<P>() == bool(M.M & 1) && Y.is<Q>() == bool(M.M & 2) && Y.is<R>() == bool(M.M & 4) && Y == Z, "the descriptor of a set can be copied");
  }
  M.clear();
  live(M, None);
}
extern "C" void drv_setmove() {
  SModel M, N, None;
  {
    Set X, Y;
    while (vf_nondet(2))
      oneS(X, M);
    switch (vf_nondet(3)) {
    case 0: {
      vf_event("move construct");
      Set Z(std::move(X));
      observeS(Z, M);
      vf_check(!X.get<P>() && !X.get<Q>() && !X.get<R>(), "a moved-from set owns no description");
      live(M, None);
      if (vf_nondet(2)) { X.unset_all(); vf_check(!X.is_any<P, Q, R>(), "a moved-from set can be used"); }
      live(M, None);
      oneS(Z, M);
      observeS(Z, M);
      live(M, None);
      break; }
    case 1: {
      vf_event("move assign");
      if (vf_nondet(2)) { stepS<P, P>(Y, N); stepS<R, R>(Y, N); } else stepS<Q, QData>(Y, N);
      Set &T = (Y = std::move(X));
      vf_check(&T == &Y, "assignment returns its target");
      N = M;
      observeS(Y, N);
      vf_check(!X.get<P>() && !X.get<Q>() && !X.get<R>(), "a moved-from set owns no description");
      live(N, None);
      oneS(Y, N);
      observeS(Y, N);
      live(N, None);
      break; }
    case 2: {
      vf_event("self move assign");
      Set &S = X;
      X = std::move(S);
      X.unset_all();
      vf_check(!X.is_any<P, Q, R>(), "a set can be used after a self-assignment");
      break; }
    }
  }
  live(None, None);
}
