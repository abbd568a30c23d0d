from seedlib import seed
H='include/bcl/'
PRE='#include <cassert>\n#include <climits>\n#define CHECK(X) do { if (!(X)) { printf("failed: %s (line %d)\\n", #X, __LINE__); return 1; } } while (0)\n'
seed('L01-a','L01',[(H+'Chain.h',"""      N->mPrev = this;
    }
    if (mNext)
      mNext->mPrev = N;
    mNext = N;
""","""      N->mPrev = this;
      if (mNext)
        mNext->mPrev = N;
    }
    mNext = N;
""")],PRE+'''#include <bcl/Chain.h>
struct Node : bcl::Chain<Node> {};
using T = bcl::ChainTraits<Node>;
int main() {
  Node A, B, C;
  T::spliceNext(&B, &A); T::spliceNext(&C, &B);
  T::spliceNext(nullptr, &A);
  CHECK(!T::getNext(&A) && !T::getPrev(&B) && T::getNext(&B) == &C);
  T::splicePrev(&C, &A);
  CHECK(T::getNext(&C) == &A && !T::getNext(&B));
}''','a chain is cut by splicing null after a node','the node after the cut still refers back to the chain it was cut from')
seed('L01-b','L01',[(H+'Chain.h',"""      if (N->mNext)
        N->mNext->mPrev = nullptr;
      N->mNext = this;
    }
    if (mPrev)
      mPrev->mNext = nullptr;""","""      N->mNext = this;
    }
    if (mPrev)
      mPrev->mNext = nullptr;""")],PRE+'''#include <bcl/Chain.h>
struct Node : bcl::Chain<Node> {};
using T = bcl::ChainTraits<Node>;
int main() {
  Node A, B, C;
  T::mergeNext(&B, &A);
  T::mergePrev(&A, &C);
  CHECK(T::getNext(&A) == &C && T::getPrev(&C) == &A && !T::getPrev(&B));
}''','the node that is merged before another one had a successor','the former successor keeps its link to the node that moved away')
seed('T01-a','T01',[(H+'trait.h',"""      std::is_same<
        typename bcl::IntersectTypeLists<
          find_union_t<LHS, Groups...>, find_union_t<RHS, Groups...>>::Type,
        bcl::TypeList<>>::value,
      std::true_type,
      std::false_type>::type>::type {};""","""      std::is_same<
        find_union_t<LHS, Groups...>, find_union_t<RHS, Groups...>>::value,
      std::false_type,
      std::true_type>::type>::type {};""")],PRE+'''#include <bcl/trait.h>
struct A{}; struct B{}; struct C{}; struct D{};
using namespace bcl;
int main() {
  TraitDescriptor<TraitAlternative<TraitUnion<A, B>, TraitUnion<B, C>>, D> X;
  X.set<A>(); X.set<D>(); X.set<B>();
  CHECK((X.is<A, B, D>()));
  X.set<C>();
  CHECK((X.is<B, C, D>()) && !X.is<A>());
}''','a trait which belongs to several unions of a group of alternatives','traits that share some union (but not all of them) are treated as conflicting')
seed('T02-a','T02',[(H+'trait.h',"""    if (!mValues.empty())
      mTD.template for_each_conflict<Trait>(ConflictsResolver(&mValues));
    mTD.template set<Trait>();
    mValues.insert(""","""    mTD.template set<Trait>();
    if (!mValues.empty())
      mTD.template for_each_conflict<Trait>(ConflictsResolver(&mValues));
    mValues.insert(""")],PRE+'''#include <map>
#include <bcl/trait.h>
struct A{ int V = 1; }; struct B{ int V = 2; };
using namespace bcl;
int main() {
  using D = TraitDescriptor<TraitAlternative<A, B>>;
  TraitSet<D, std::map<TraitKey, void *>> X;
  X.set<A>(new A);
  X.set<B>(new B);
  CHECK(X.is<B>() && !X.is<A>() && X.get<B>() && X.get<B>()->V == 2);
  CHECK(!X.get<A>());
}''','a trait with a description is replaced by a conflicting trait with a description','the description of the trait that is no longer set is kept and leaks')
seed('M01-a','M01',[(H+'cell.h',"""  static_assert(!IsCellExist<CellNext, CellKey>::value,""","""  static_assert(!std::is_same<CellNext, StaticMap<CellKey>>::value,""")],None,
 'a map has the same key twice','maps with duplicate keys are accepted (one of the values is inaccessible)','''#!/bin/bash
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cat > "$T/good.cpp" <<'X'
#include <cassert>
#include <cstddef>
#include <utility>
#include <bcl/cell.h>
struct A { using ValueType = long; }; struct B { using ValueType = char; };
long f() { bcl::StaticMap<A, B> M; return M.value<A>(); }
X
sed 's/<A, B>/<A, B, A>/' "$T/good.cpp" > "$T/bad.cpp"
g++ -std=gnu++17 -w -fsyntax-only -I "$PWD/include" -I "$PWD/_build" "$T/good.cpp" || exit 3
! g++ -std=gnu++17 -w -fsyntax-only -I "$PWD/include" -I "$PWD/_build" "$T/bad.cpp" 2>/dev/null
''')
seed('M02-a','M02',[(H+'cell.h',"""    mTo->template value<CellKey>() = C->template value<CellKey>();""","""    std::swap(mTo->template value<CellKey>(), C->template value<CellKey>());""")],PRE+'''#include <string>
#include <bcl/cell.h>
struct A { using ValueType = std::string; }; struct B { using ValueType = int; };
using namespace bcl;
int main() {
  StaticMap<A, B> X(std::string("x"), 1);
  StaticMap<B, A> Y(2, std::string("y"));
  X.for_each(CopyFromCellFunctor<StaticMap<B, A>>(&Y));
  CHECK(Y.value<A>() == "x" && Y.value<B>() == 1);
  CHECK(X.value<A>() == "x" && X.value<B>() == 1);
}''','the source of a copy is used afterwards','copying from the cells of a map exchanges them with the target')
seed('G01-a','G01',[(H+'tagged.h',"""  const bcl::get_tagged_t<Tag, Tagged1, Tagged2> & get() const noexcept {
    return get(
      std::is_same<Tagged1, bcl::get_tagged<Tag, Tagged1, Tagged2>>());""","""  const bcl::get_tagged_t<Tag, Tagged1, Tagged2> & get() const noexcept {
    return get(
      std::is_same<typename Tagged1::type, bcl::get_tagged_t<Tag, Tagged1, Tagged2>>());""")],PRE+'''#include <bcl/tagged.h>
struct A; struct B; struct C;
using namespace bcl;
int main() {
  tagged_pair<tagged<int, A>, tagged<int, B, C>> P(1, 2);
  const auto &R = P;
  CHECK(P.get<A>() == 1 && P.get<B>() == 2 && P.get<C>() == 2);
  CHECK(R.get<A>() == 1 && R.get<B>() == 2 && R.get<C>() == 2);
}''','a constant pair whose elements have the same type','every tag denotes the first element')
seed('G01-b','G01',[(H+'tuple_utils.h',"""void for_each(const std::tuple<Types...> &T, Function &&F, std::false_type) {
  using TupleT = std::tuple<Types...>;
  F.operator()(std::get<Idx>(T));
  using IsLast =
      typename std::conditional<(Idx + 1 < std::tuple_size<TupleT>::value),
                                std::false_type, std::true_type>::type;
  for_each<Idx + 1>(T, F, IsLast{});""","""void for_each(const std::tuple<Types...> &T, Function &&F, std::false_type) {
  using TupleT = std::tuple<Types...>;
  F.operator()(std::get<Idx>(T));
  using IsLast =
      typename std::conditional<(Idx + 1 < std::tuple_size<TupleT>::value),
                                std::false_type, std::true_type>::type;
  for_each<Idx + 1>(T, typename std::decay<Function>::type(F), IsLast{});""")],PRE+'''#include <tuple>
#include <bcl/tuple_utils.h>
struct Sum { int S = 0; void operator()(int V) { S += V; } };
int main() {
  std::tuple<int, int, int> T(1, 2, 3);
  const auto &C = T;
  Sum S;
  bcl::for_each(T, S);
  CHECK(S.S == 6);
  bcl::for_each(C, S);
  CHECK(S.S == 12);
}''','a visitor with a state visits a constant tuple of several elements','only the first element is visited by the given function object')
seed('A01-a','A01',[(H+'marray_f.h',"""      mOffset[I-1] = mOffset[I] * mDims[I];""","""      mOffset[I-1] = mOffset[I] * mDims[I-1];""")],PRE+'''#include <bcl/marray_f.h>
#include <set>
int main() {
  std::array<size_t, 3> D = {2, 3, 4};
  bcl::marray_f<int, 3> A(D);
  std::set<int *> S;
  for (int I = 0; I < 2; ++I) for (int J = 0; J < 3; ++J) for (int K = 0; K < 4; ++K) S.insert(&A(I, J, K));
  CHECK(S.size() == 24);
}''','an array of at least 3 dimensions whose first two sizes differ','different elements share their memory')
seed('A01-b','A01',[(H+'marray.h',"""      mData + mBase->mOffset[mBase->mOffset.size() - Size + 1] * I, mBase);""","""      mData + mBase->mOffset[mBase->mOffset.size() - 1] * I, mBase);""")],PRE+'''#include <bcl/marray.h>
#include <set>
template<std::size_t N> int run();
int main() {
  { std::array<std::size_t, 3> D = {2, 3, 4}; bcl::marray<int, 3> A(D); std::set<int *> S;
    for (int I = 0; I < 2; ++I) for (int J = 0; J < 3; ++J) for (int K = 0; K < 4; ++K) S.insert(&A[I][J][K]);
    CHECK(S.size() == 24); }
  { std::array<std::size_t, 4> D = {2, 3, 4, 5}; bcl::marray<int, 4> A(D); std::set<int *> S;
    for (int I = 0; I < 2; ++I) for (int J = 0; J < 3; ++J) for (int K = 0; K < 4; ++K) for (int L = 0; L < 5; ++L) S.insert(&A[I][J][K][L]);
    CHECK(S.size() == 120); }
}''','an array of at least 4 dimensions','different elements share their memory')
seed('W01-a','W01',[(H+'ValuePtrWrapper.h',"""    mValue = std::move(From.mValue);
    mPtr = From.mPtr;
    *mPtr = &mValue;""","""    mValue = std::move(From.mValue);
    *From.mPtr = &mValue;""")],PRE+'''#include <bcl/ValuePtrWrapper.h>
int main() {
  int *P = nullptr, *Q = nullptr;
  bcl::ValuePtrWrapper<int> A(P, 1), B(Q, 2);
  B = std::move(A);
  CHECK(P == &B && *P == 1);
  bcl::ValuePtrWrapper<int> C(std::move(B));
  CHECK(P == &C && *P == 1);
}''','a wrapper that got its value by assignment is moved again','the registered pointer keeps pointing into the old wrapper')
seed('U01-a','U01',[(H+'utility.h',"""  for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)""","""  for (std::size_t I = SizeOfT; I < sizeof(SecondT); ++I)""")],PRE+'''#include <bcl/utility.h>
int main() {
  unsigned Out = 0, X = 0, Y = 0;
  CHECK(bcl::shrinkPair(1u, 2u, Out));
  bcl::restoreShrinkedPair(Out, X, Y);
  CHECK(X == 1 && Y == 2);
  CHECK(!bcl::shrinkPair(0x10000u, 2u, Out));
  CHECK(!bcl::shrinkPair(1u, 0x10000u, Out));
}''','the second value needs between a half and the whole of the target','a pair is shrinked although its second value does not fit')
