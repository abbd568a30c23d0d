#include "vf.h"
#include "vfstr.h"
#include <bcl/Json.h>
#include "vftree.h"
using namespace json;
extern "C" {
Position spec_text(std::string *, int Kind) noexcept;  // a text with a value, where it begins
bool spec_old() noexcept;                              // is there an element before?
int spec_value(long *, Position Start) noexcept;       // the value at this position: 0 failure, 1 success, 2 exception
int spec_key(long *, Position Start) noexcept;         // the key at this position
void spec_array(bool R, const void *, long N, Position Start) noexcept;   // an array of so many elements
void spec_size(bool R, long N, Position Start) noexcept;
void spec_has(long Key, long Value) noexcept;
void spec_end() noexcept;
long spec_length() noexcept;                           // the number of elements that are expected, -1 for a single one
}
struct Elem {
  long V;
};
struct Key {
  long V = 0;
  bool operator<(const Key &K) const { return V < K.V; }
};
namespace json {
template<> struct Traits<Elem> {
  static bool parse(Elem &D, Lexer &L) {
    int R = spec_value(&D.V, L.start());
    if (R == 2)
      throw 1;
    return R;
  }
};
template<> struct Traits<Key> {
  static bool parse(Key &D, Lexer &L) {
    int R = spec_key(&D.V, L.start());
    if (R == 2)
      throw 1;
    return R;
  }
};
}
/// A pointer to an array or a single element.
template<class P> static void pointer() {
  std::string J;
  Position S = spec_text(&J, 0);
  Lexer L(J);
  L.setPosition(S);
  Elem Old;
  P D = &Old;
  bool R = Traits<P>::parse(D, L);
  if (!R)
    vf_check(D == &Old, "the pointer is unchanged after a failure");
  spec_array(R, D, sizeof(Elem), L.start());
  if (R && D) {
    if (spec_length() < 0)
      delete D;
    else
      delete[] D;
  }
  spec_end();
}
extern "C" void drv_pointer() { pointer<Elem *>(); }
extern "C" void drv_pointer_const() { pointer<const Elem *>(); }
/// An array of characters.
extern "C" void drv_chars() {
  std::string J;
  Position S = spec_text(&J, 4);
  Lexer L(J);
  L.setPosition(S);
  char Old = 'o';
  char *D = &Old;
  bool R = Traits<char *>::parse(D, L);
  if (!R)
    vf_check(D == &Old && Old == 'o', "the pointer is unchanged after a failure");
  spec_array(R, D, 1, L.start());
  if (R && D)
    delete[] D;
  spec_end();
}
extern "C" void drv_vector() {
  std::string J;
  Position S = spec_text(&J, 1);
  Lexer L(J);
  L.setPosition(S);
  std::vector<Elem> D;
  if (spec_old())
    D.push_back(Elem{1});
  bool R;
  try {
    R = Traits<std::vector<Elem>>::parse(D, L);
  } catch (...) {
    R = false;
  }
  spec_size(R, D.size(), L.start());
  if (R)
    for (std::size_t I = 0; I < D.size(); ++I)
      spec_has(I, D[I].V);
  spec_end();
}
extern "C" void drv_set() {
  std::string J;
  Position S = spec_text(&J, 2);
  Lexer L(J);
  L.setPosition(S);
  std::set<Key> D;
  if (spec_old()) {
    Key K;
    K.V = 2;
    D.insert(K);
  }
  bool R;
  try {
    R = Traits<std::set<Key>>::parse(D, L);
  } catch (...) {
    R = false;
  }
  spec_size(R, D.size(), L.start());
  for (auto &K : D)
    spec_has(K.V, 0);
  spec_end();
}
template<class Map> static void map(int Kind) {
  std::string J;
  Position S = spec_text(&J, Kind);
  Lexer L(J);
  L.setPosition(S);
  Map D;
  if (spec_old()) {
    Key K;
    K.V = 2;
    D.insert(std::make_pair(K, Elem{1}));
  }
  bool R;
  try {
    R = Traits<Map>::parse(D, L);
  } catch (...) {
    R = false;
  }
  spec_size(R, D.size(), L.start());
  for (auto &P : D)
    spec_has(P.first.V, P.second.V);
  spec_end();
}
extern "C" void drv_map() { map<std::map<Key, Elem>>(3); }
extern "C" void drv_multimap() { map<std::multimap<Key, Elem>>(5); }
