#include "vf.h"
#include "vfstr.h"
#include <bcl/Json.h>
using namespace json;
extern "C" {
void spec_text(std::string *, int Kind) noexcept;      // an arbitrary sequence of tokens behind arbitrary text
Position spec_somewhere() noexcept;                    // where they begin
void spec_begin() noexcept;                            // the first of them has been read
void spec_call(Position K1, Position K2, Position Start) noexcept;
void spec_called(bool) noexcept;
void spec_result(bool, Position S, Position E) noexcept;
void spec_count(bool, Position N, Position Max, Position S, Position E, Position Next) noexcept;
void spec_object(int Kind, Position Start) noexcept;   // an object of this type is to be converted
void spec_parsed(int Kind) noexcept;                   // the result
int spec_inside(Position *E) noexcept;                 // where the value ends that begins with the last token
}
struct Text {
  String J;
  explicit Text(int Kind) { spec_text(&J, Kind); }
};
/// Everything up to the matching bracket is skipped.
extern "C" void drv_skip() {
  Text T(0);
  Lexer L(T.J);
  L.setPosition(spec_somewhere());
  spec_begin();
  bool R = L.skipInternal();
  spec_result(R, L.start(), L.end());
}
/// What drv_skip() shows of skipInternal(); it is used in its place by the following drivers.
extern "C" bool vf_skip(Lexer *L) {
  Position E;
  if (spec_inside(&E)) {
    L->setPosition(E);
    return true;
  }
  L->errors().insert(0, "", E);
  return false;
}
struct Mock {
  static bool parse(int &D, Lexer &L, std::pair<Position, Position> K) {
    spec_call(K.first, K.second, L.start());
    bool R = true;
    if (L.is(Token::LEFT_BRACE) || L.is(Token::LEFT_BRACKET))
      R = vf_skip(&L);
    R = R && vf_bool("converted");
    spec_called(R);
    return R;
  }
};
/// Each element is handed over once, in order, with its key.
extern "C" void drv_traverse() {
  Text T(1);
  Lexer L(T.J);
  L.setPosition(spec_somewhere());
  spec_begin();
  int D = 0;
  bool R = Parser<>::traverse<Mock>(D, L);
  spec_result(R, L.start(), L.end());
}
/// Each value is stored in the cell of its key.
template<int K> struct Value {};
struct K1 { using ValueType = Value<1>; static std::string name() { return "m"; } };
struct K2 { using ValueType = Value<2>; static std::string name() { return "k"; } };
namespace json {
template<int K> struct Traits<Value<K>> {
  static bool parse(Value<K> &, Lexer &L) {
    spec_call(0, K, L.start());
    bool R = true;
    if (L.is(Token::LEFT_BRACE) || L.is(Token::LEFT_BRACKET))
      R = vf_skip(&L);
    R = R && vf_bool("converted");
    spec_called(R);
    return R;
  }
};
}
extern "C" void drv_map() {
  Text T(5);
  Lexer L(T.J);
  L.setPosition(spec_somewhere());
  spec_begin();
  bcl::StaticMap<K1, K2> D;
  bool R = Traits<bcl::StaticMap<K1, K2>>::parse(D, L);
  spec_result(R, L.start(), L.end());
}
/// The elements are counted and the lexer returns to the beginning.
extern "C" void drv_count() {
  Text T(2);
  Lexer L(T.J);
  L.setPosition(spec_somewhere());
  spec_begin();
  auto R = Parser<>::numberOfKeys(L);
  spec_count(std::get<2>(R), std::get<0>(R), std::get<1>(R), L.start(), L.end(), L.next());
}
/// The type of the object is found by its name.
struct A : public Object {
  static ObjectName name() { return "A"; }
  A() : Object(name()) {}
};
struct B : public Object {
  static ObjectName name() { return "ru"; }     // as in true
  B() : Object(name()) {}
};
template<class T, int K> struct MockTraits {
  static bool parse(T &D, Lexer &L) {
    spec_object(K, L.start());
    Position E;
    if (!spec_inside(&E))
      return false;
    L.setPosition(E);
    return true;
  }
};
namespace json {
template<> struct Traits<A> : public MockTraits<A, 1> {};
template<> struct Traits<B> : public MockTraits<B, 2> {};
}
extern "C" void drv_parse() {
  Text T(3);
  Parser<A, B> P(T.J, "n");
  auto O = P.parse();
  spec_parsed(!O ? 0 : O->is<A>() ? 1 : O->is<B>() ? 2 : 3);
}
extern "C" void drv_parse_known() {
  Text T(4);
  Parser<> P(T.J, "n");
  A O;
  bool R = P.parse(O);
  spec_parsed(R);
}
