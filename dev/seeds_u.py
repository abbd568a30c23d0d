from seedlib import seed
C='include/bcl/cell.h'; U='include/bcl/utility.h'; G='include/bcl/tagged.h'; T='include/bcl/trait.h'
CHECK='''#include <cstdio>
#define CHECK(X) do { if (!(X)) { printf("failed: %s (line %d)\\n", #X, __LINE__); return 1; } } while (0)
'''
seed('M01-b','M01',[(C,'''  template<class Function> void for_each(Function &F, std::false_type) const {''','''  template<class Function> void for_each(Function F, std::false_type) const {''')],CHECK+'''
#include <cstddef>
#include <type_traits>
#include <bcl/cell.h>
struct A { using ValueType = int; }; struct B { using ValueType = long; }; struct C { using ValueType = char; };
struct Sum {
  long S = 0;
  template<class Cell> void operator()(Cell *X) { S += X->template value<typename std::remove_const_t<Cell>::CellKey>(); }
};
int main() {
  bcl::StaticMap<A, B, C> M(1, 20, 100);
  const auto &N = M;
  Sum F, G;
  M.for_each(F);
  N.for_each(G);
  CHECK(F.S == 121);
  CHECK(G.S == 121);
}''','a functor with a state of its own visits a constant map','only the first cell is visited by the functor of the caller, the others by copies')
seed('M01-c','M01',[(C,'''    KeyFunctorWrapper<Function> Wrapper(F);
    MapType::for_each_key(Wrapper);''','''    typename std::remove_reference<Function>::type Copy(F);
    KeyFunctorWrapper<decltype(Copy)> Wrapper(Copy);
    MapType::for_each_key(Wrapper);''')],CHECK+'''
#include <cstddef>
#include <bcl/cell.h>
struct Count {
  int N = 0;
  template<class T> void operator()() { N += sizeof(T); }
};
int main() {
  Count F;
  bcl::StaticTypeMap<int, long, char>::for_each_key(F);
  CHECK(F.N == sizeof(int) + sizeof(long) + 1);
}''','a functor with a state of its own visits the keys of a map of types','a copy of the functor visits the keys')
seed('G01-c','G01',[(G,'''    return static_cast<tagged_tuple &>(
      std::tuple<typename Taggeds::type...>::
        operator=(std::forward<ArgsTy>(Args)...));''','''    return static_cast<tagged_tuple &>(
      std::tuple<typename Taggeds::type...>::
        operator=(std::move(Args)...));''')],CHECK+'''
#include <cstddef>
#include <string>
#include <bcl/tagged.h>
struct A; struct B;
int main() {
  using T = bcl::tagged_tuple<bcl::tagged<std::string, A>, bcl::tagged<long, B>>;
  T X(std::string("a text which is too long for a small string"), 2), Y(std::string("old"), 3);
  Y = X;
  CHECK(Y.get<A>() == "a text which is too long for a small string" && Y.get<B>() == 2);
  CHECK(X.get<A>() == "a text which is too long for a small string");
}''','a tuple that is not constant is assigned to another one','the source of the assignment loses its elements')
seed('U01-b','U01',[(U,'''  return Value / Base == 0 ? 1 : numberOfDigits(Value / Base, Base) + 1;''','''  return Value <= Base ? 1 : numberOfDigits(Value / Base, Base) + 1;''')],CHECK+'''
#include <cstddef>
#include <tuple>
#include <bcl/utility.h>
int main() {
  CHECK(bcl::numberOfDigits(0, 10) == 1 && bcl::numberOfDigits(9, 10) == 1 && bcl::numberOfDigits(11, 10) == 2 && bcl::numberOfDigits(12345, 10) == 5);
  CHECK(bcl::numberOfDigits(10, 10) == 2);
  CHECK(bcl::numberOfDigits(1000, 10) == 4 && bcl::numberOfDigits(256u, 2u) == 9);
}''','the value is a power of the base','one digit is missing')
seed('T01-b','T01',[(T,'''    ForEachIfSet<Function, Descriptor, First>::exec(TD, F);
    ForEachIfSet<Function, Descriptor, Traits...>::exec(TD, F);''','''    ForEachIfSet<Function, Descriptor, First>::exec(TD, F);
    ForEachIfSet<typename std::decay<Function>::type, Descriptor, Traits...>::exec(TD, F);''')],CHECK+'''
#include <cstddef>
#include <bcl/trait.h>
struct A {}; struct B {}; struct C {};
struct Count {
  int N = 0;
  template<class T> void operator()() { ++N; }
};
int main() {
  bcl::TraitDescriptor<A, bcl::TraitAlternative<B, C>> D;
  D.set<A>();
  D.set<C>();
  Count F;
  D.for_each(F);
  CHECK(F.N == 2);
}''','a functor with a state of its own visits several traits','only the first trait is visited by the functor of the caller')
