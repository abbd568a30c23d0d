#include "vf.h"
#include <bcl/Json.h>
#include "vftree.h"
using namespace json;
extern "C" {
void spec_before(std::string *) noexcept;                  // an arbitrary text that the result is appended to
void spec_value(std::string *, long I) noexcept;           // the text of element I, possibly empty
void spec_key(std::string *, long I) noexcept;             // the text of key I
void spec_written(const std::string *, int Kind, long N) noexcept;
}
struct Out {
  std::string J;
  Out() { spec_before(&J); }
};
struct Elem {
  long V;
};
struct Key {
  long V;
  bool operator<(const Key &K) const { return V < K.V; }
};
namespace json {
template<> struct Traits<Elem> {
  static void unparse(String &J, const Elem &E) { spec_value(&J, E.V); }
};
template<> struct Traits<Key> {
  static void unparse(String &J, const Key &K) { spec_key(&J, K.V); }
};
}
extern "C" void drv_vector() {
  Out O;
  int N = vf_nondet(4);
  std::vector<Elem> D;
  for (int I = 0; I < N; ++I)
    D.push_back(Elem{I});
  Traits<std::vector<Elem>>::unparse(O.J, D);
  spec_written(&O.J, 1, N);
}
struct Item {
  long V;
  bool operator<(const Item &K) const { return V < K.V; }
};
namespace json {
template<> struct Traits<Item> {
  static void unparse(String &J, const Item &E) { spec_value(&J, E.V); }
};
}
extern "C" void drv_set() {
  Out O;
  int N = vf_nondet(4);
  std::set<Item> D;
  for (int I = 0; I < N; ++I)
    D.insert(Item{I});
  Traits<std::set<Item>>::unparse(O.J, D);
  spec_written(&O.J, 2, N);
}
template<class M> static void map() {
  Out O;
  int N = vf_nondet(4);
  M D;
  for (int I = 0; I < N; ++I)
    D.insert(std::make_pair(Key{I}, Elem{I}));
  Traits<M>::unparse(O.J, D);
  spec_written(&O.J, 3, N);
}
extern "C" void drv_map() { map<std::map<Key, Elem>>(); }
extern "C" void drv_multimap() { map<std::multimap<Key, Elem>>(); }
extern "C" void drv_pointer() {
  Out O;
  Elem E{0};
  int N = vf_nondet(2);
  Traits<Elem *>::unparse(O.J, N ? &E : nullptr);
  spec_written(&O.J, 0, N);
}
extern "C" void drv_pointer_const() {
  Out O;
  Elem E{0};
  int N = vf_nondet(2);
  Traits<const Elem *>::unparse(O.J, N ? &E : nullptr);
  spec_written(&O.J, 0, N);
}
struct K0 { using ValueType = Elem; static std::string name() { return "a"; } };
struct K1 { using ValueType = Elem; static std::string name() { return "k\"1"; } };
struct K2 { using ValueType = Elem; static std::string name() { return "c"; } };
typedef bcl::StaticMap<K0, K1, K2> Cells;
static void fill(Cells &D) {
  D.value<K0>().V = 0;
  D.value<K1>().V = 1;
  D.value<K2>().V = 2;
}
extern "C" void drv_cells() {
  Out O;
  Cells D;
  fill(D);
  Traits<Cells>::unparse(O.J, D);
  spec_written(&O.J, 4, 3);
}
struct A : public Object, public Cells {
  static ObjectName name() { return "A"; }
  A() : Object(name()) { fill(*this); }
};
struct B : public Object, public bcl::StaticMap<> {
  static ObjectName name() { return "BB"; }
  B() : Object(name()) {}
};
struct C : public Object {
  static ObjectName name() { return "C"; }
  C() : Object(name()) {}
};
namespace json {
template<> struct Traits<A> : public Traits<Cells> {};
template<> struct Traits<B> : public Traits<bcl::StaticMap<>> {};
}
/// The object is written with its name.
template<class T> static void object(int Kind) {
  T D;
  std::string J = Parser<A, B>::unparse(static_cast<const Object &>(D), "id");
  spec_written(&J, Kind, 3);
}
extern "C" void drv_object() {
  switch (vf_nondet(4)) {
  case 0: object<A>(5); break;
  case 1: object<B>(6); break;
  case 2: object<C>(7); break;
  case 3: {
    A D;
    std::string J = Parser<A, B>::unparseAsObject(D, "id");
    spec_written(&J, 5, 3);
    break;
  }
  }
}
/// Without the name.
extern "C" void drv_value() {
  A D;
  std::string J = Parser<A, B>::unparse(D);
  spec_written(&J, 8, 3);
}
/// Quotes around a text.
extern "C" void drv_quote() {
  std::string S;
  spec_key(&S, 0);
  std::string T = S;
  if (vf_bool("moved")) {
    std::string R = bcl::quote(std::move(S));
    spec_written(&R, 9, 1);
  } else {
    std::string R = bcl::quote(S);
    vf_check(S == T, "the argument is unchanged");
    spec_written(&R, 9, 1);
  }
}
