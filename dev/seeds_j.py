from seedlib import seed
J='include/bcl/Json.h'
PRE='#define CHECK(X) do { if (!(X)) { printf("failed: %s (line %d)\\n", #X, __LINE__); return 1; } } while (0)\n#include <bcl/Json.h>\n#include <string>\n#include <map>\n#include <vector>\nusing namespace json;\n'
seed('J01-a','J01',[(J,"""      mErrors.insert(JSON_ERROR(1), mStart);
      mStart = mEnd = mNext""","""      mErrors.insert(JSON_ERROR(1), mNext);
      mStart = mEnd = mNext""")],PRE+'''
int main() {
  Lexer L("{\\"key\\": \\"never closed");
  L.setPosition(7);
  CHECK(L.hasErrors());
  CHECK(std::string(*L.errors().begin()).find("(8)") != std::string::npos);
}''','a string that is not closed','the error gives the position of the end of the text instead of that of the string')
seed('J01-b','J01',[(J,"""S.substr(0, Current.size()) == Current""","""S.substr(0, 4) == Current.substr(0, 4)""")],PRE+'''
int main() {
  Lexer L("[fals]");
  L.setPosition(1);
  CHECK(!L.isKeyword(Keyword::FALSE));
  CHECK(L.start() == 1 && L.end() == 1 && L.next() == 2);
  Lexer F("false,");
  F.setPosition(0);
  CHECK(F.isKeyword(Keyword::FALSE) && F.end() == 4 && F.next() == 5);
}''','a word that starts like the keyword "false" but ends differently','"fals" is read as the keyword false and the character behind it is swallowed')
seed('J01-c','J01',[(J,"""      mEnd = mNext - 1;
      return true;
    } else if (std::isalpha""","""      mEnd = mNext < mJSON.size() ? mNext - 1 : mJSON.size();
      return true;
    } else if (std::isalpha""")],PRE+'''
int main() {
  Lexer L("[12");
  L.setPosition(1);
  CHECK(L.is(Token::NUMBER) && L.start() == 1 && L.end() == 2 && L.next() == 3);
  Lexer M("12]");
  M.setPosition(0);
  CHECK(M.end() == 1 && M.next() == 2);
}''','a text that ends with a number','end() of the number lies behind the text')
seed('J02-a','J02',[(J,"""      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
        ++Level;""","""      if (is(Last == Token::RIGHT_BRACE ? Token::LEFT_BRACE : Token::LEFT_BRACKET))
        ++Level;""")],PRE+'''
int main() {
  Lexer L("[{}, 1], 2");
  L.setPosition(0);
  CHECK(L.skipInternal());
  CHECK(L.end() == 6);
  Lexer N("{\\"a\\": {}}");
  N.setPosition(0);
  CHECK(N.skipInternal() && N.end() == 8);
}''','an object nested in an array (or the other way round) in a value that is skipped','the closing bracket of the inner value is taken for that of the outer one')
seed('J02-b','J02',[(J,"Idx > MaxIdx ? Idx : MaxIdx","Idx < MaxIdx ? MaxIdx + 1 : Idx")],PRE+'''
int main() {
  Lexer L("{\\"0\\":1,\\"1\\":1,\\"2\\":1}");
  L.setPosition(0);
  CHECK(Parser<>::numberOfKeys(L) == std::make_tuple(Position(3), Position(2), true));
  Lexer M("{\\"2\\":1,\\"0\\":1,\\"1\\":1}");
  M.setPosition(0);
  CHECK(Parser<>::numberOfKeys(M) == std::make_tuple(Position(3), Position(2), true));
}''','an array written as an object whose keys are not in ascending order','the greatest index is too large, the array is rejected')
seed('J02-c','J02',[(J,"""      if (!Lex.checkSpecial(Token::COMMA))
        return false;
      if (!Lex.goToNext())
        return false;
    }
  }""","""      if (!Lex.checkSpecial(Token::COMMA))
        return false;
      if (!Lex.goToNext())
        return false;
      if (Lex.is(Last))
        return true;
    }
  }""")],PRE+'''
int main() {
  std::vector<int> V;
  Lexer L("[[1,2],[3]]");
  std::map<int, int> M;
  CHECK(Parser<>("{\\"1\\":2,\\"3\\":4}").parse(M) && M.size() == 2);
  M.clear();
  CHECK(!Parser<>("{\\"1\\":2,\\"3\\":4,}").parse(M));
}''','a comma behind the last element','an incorrect text is accepted')
seed('J03-a','J03',[(J,"      if (Lex.next() < Lex.json().size()) {","      if (Lex.next() + 1 < Lex.json().size()) {")],PRE+'''
int main() {
  std::map<int, int> M;
  CHECK(Parser<>("{\\"1\\":2}").parse(M));
  M.clear();
  CHECK(!Parser<>("{\\"1\\":2} }").parse(M));
  M.clear();
  CHECK(!Parser<>("{\\"1\\":2}}").parse(M));
}''','exactly one character behind the value','the surplus character is accepted')
seed('J03-b','J03',[(J,"""        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);""","""        mLex.start() + 1, std::strlen(getNameKey()), getNameKey()) == 0);""")],PRE+'''
struct Thing : public Object {
  static ObjectName name() { return "Thing"; }
  Thing() : Object(name()) {}
};
namespace json {
template<> struct Traits<Thing> {
  static bool parse(Thing &, Lexer &L) { return L.skipInternal(); }
};
}
int main() {
  Parser<Thing> P("{\\"a\\":1,\\"name\\":\\"Thing\\"}");
  auto O = P.parse();
  CHECK(O && O->is<Thing>());
  Parser<Thing> Q("{\\"named\\":\\"by me\\",\\"name\\":\\"Thing\\"}");
  auto N = Q.parse();
  CHECK(N && N->is<Thing>());
}''','a key before the name key that begins with it','the value of the other key is taken for the name')
seed('J03-c','J03',[(J,"""    mHasError = !CellTraits<CellKey>::parse(
      Cell->template value<CellKey>(), mLex);""","""    mHasError = !(CellTraits<CellKey>::parse(
      Cell->template value<CellKey>(), mLex) || mLex.is(Token::KEYWORD));""")],PRE+'''
struct X { using ValueType = int; static std::string name() { return "x"; } };
int main() {
  bcl::StaticMap<X> M;
  CHECK(Parser<>("{\\"x\\":7}").parse(M) && M[X()] == 7);
  CHECK(!Parser<>("{\\"x\\":true}").parse(M));
}''','a keyword as the value of a cell that it cannot be converted to','the failed conversion is not reported')
seed('J04-a','J04',[(J,"""        default: continue;
      }
      ++I;
    }
    if (I == EI)
      Res += Str.back();""","""        default: continue;
      }
      ++I;
    }
    if (I == EI && Str.back() != '\\\\')
      Res += Str.back();""")],PRE+'''
int main() {
  // A backslash that is written as an escape sequence stays, a single one at the end too.
  CHECK(Traits<std::string>::unescape("a\\\\\\\\b") == "a\\\\b");
  CHECK(Traits<std::string>::unescape("ab\\\\") == "ab\\\\");
}''','a string whose last character is a backslash','the backslash is lost')
seed('J04-b','J04',[(J,"""      case '\\r': JSON.replace(Pos, 1, "r"); break;
      case '"'""","""      case '\\r': JSON.replace(Pos, JSON[Pos + 1] == '\\n' ? 2 : 1, JSON[Pos + 1] == '\\n' ? "n" : "r"); break;
      case '"'""")],PRE+'''
int main() {
  std::string S, T;
  Traits<std::string>::unparse(S, "a\\rb\\n");
  CHECK(S == "\\"a\\\\rb\\\\n\\"");
  Traits<std::string>::unparse(T, "a\\r\\n");
  CHECK(T == "\\"a\\\\r\\\\n\\"");
}''','a carriage return followed by a line feed','the carriage return is lost')
seed('J04-c','J04',[(J,"""    auto I = JSON.size() + 1;
    JSON += "\\"";
    JSON += Obj;
    JSON += "\\"";
    for (; I < JSON.size() - 1; ++I)""","""    auto I = JSON.size() + 1;
    JSON += "\\"";
    JSON += Obj;
    JSON += "\\"";
    for (auto E = JSON.size() - 1; I < E; ++I)""")],PRE+'''
int main() {
  std::string S, T;
  Traits<const char *>::unparse(S, "a\\nb");
  CHECK(S == "\\"a\\\\nb\\"");
  Traits<const char *>::unparse(T, "a\\nb\\n");
  CHECK(T == "\\"a\\\\nb\\\\n\\"");
}''','a C string that ends with as many special characters as stand in front of them','the last characters are not escaped')
seed('J05-a','J05',[(J,"      Dest = std::stoul(Str);","      Dest = std::stol(Str);")],PRE+'''
static bool read(const char *T, unsigned long &V) { Lexer L(T); L.setPosition(1); return Traits<unsigned long>::parse(V, L); }
int main() {
  unsigned long V = 0;
  CHECK(read("[12]", V) && V == 12);
  CHECK(read("[18446744073709551615]", V) && V == 18446744073709551615UL);
  CHECK(!read("[18446744073709551616]", V));
}''','a number that only the unsigned 64-bit type can hold','numbers above the greatest long are rejected')
seed('J05-b','J05',[(J,"""      return (Str == toString(Keyword::TRUE) ||
              Str == toString(Keyword::FALSE));""","""      return Dest || Str.size() == toString(Keyword::FALSE).size();""")],PRE+'''
static bool read(const char *T, bool &V) { Lexer L(T); L.setPosition(1); return Traits<bool>::parse(V, L); }
int main() {
  bool V = true;
  CHECK(read("[\\"false\\"]", V) && !V);
  CHECK(read("[\\"true\\"]", V) && V);
  CHECK(read("[false]", V) && !V);
  CHECK(!read("[\\"maybe\\"]", V));
  CHECK(!read("[12345]", V));
}''','a value of five characters other than false','a text that is no boolean value is accepted as false')
seed('J05-c','J05',[(J,"""  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
    try {
      std::string Str;
      Traits<std::string>::parse(Str, Lex);
      Dest = std::stof(Str);""","""  inline static bool parse(float &Dest, Lexer &Lex) noexcept {
    try {
      std::string Str;
      Traits<std::string>::parse(Str, Lex);
      Dest = static_cast<float>(std::stod(Str));""")],PRE+'''
static bool read(const char *T, float &V) { Lexer L(T); L.setPosition(1); return Traits<float>::parse(V, L); }
int main() {
  float V = 0;
  CHECK(read("[0.5]", V) && V == 0.5f);
  // Rounded once only.
  CHECK(read("[\\"1.00000017881393432617187499\\"]", V) && V == 1.00000011920928955078125f);
  CHECK(!read("[\\"1e60\\"]", V));
}''','a number that float can not hold (or one that is rounded differently in two steps)','too large numbers are accepted as infinity')
seed('J05-d','J05',[(J,"""      if (Lex.isKeyword(Keyword::NO_VALUE) ||
          Traits<std::string>::parse(Str, Lex) &&
              Str == toString(Keyword::NO_VALUE)) {
        Dest.reset();""","""      if (Lex.isKeyword(Keyword::NO_VALUE) ||
          Traits<std::string>::parse(Str, Lex) &&
              Str == toString(Keyword::NO_VALUE)) {
        if (Lex.is(Token::IDENTIFIER))
          Dest.reset();""")],PRE+'''
static bool read(const char *T, std::optional<int> &V) { Lexer L(T); L.setPosition(1); return Traits<std::optional<int>>::parse(V, L); }
int main() {
  std::optional<int> V;
  CHECK(read("[null]", V) && !V);
  CHECK(read("[12]", V) && V && *V == 12);
  CHECK(read("[\\"null\\"]", V) && !V);
  CHECK(read("[34]", V) && V && *V == 34);
  CHECK(read("[null]", V) && !V);
}''','null is read into an optional that already has a value','the previous value stays')
seed('J06-a','J06',[(J,"""    Dest.resize(Count);""","""    if (Dest.size() < Count)
      Dest.resize(Count);""")],PRE+'''
static bool read(const char *T, std::vector<int> &V) { Lexer L(T); L.setPosition(0); return Traits<std::vector<int>>::parse(V, L); }
int main() {
  std::vector<int> V;
  CHECK(read("[1,2]", V) && V == (std::vector<int>{1, 2}));
  CHECK(read("{\\"1\\":4,\\"0\\":3,\\"2\\":5}", V) && V == (std::vector<int>{3, 4, 5}));
  CHECK(read("[6]", V) && V == (std::vector<int>{6}));
  CHECK(read("[]", V) && V.empty());
}''','an array is read into a vector that holds more elements','old elements stay behind the new ones')
seed('J06-b','J06',[(J,"""      Dest.erase(Itr);
      return false;""","""      Dest.erase(Itr->first);
      return false;""")],PRE+'''
typedef std::multimap<int, int> Map;
static bool read(const char *T, Map &M) { Lexer L(T); L.setPosition(0); return Traits<Map>::parse(M, L); }
int main() {
  Map M;
  CHECK(read("{\\"1\\":2,\\"1\\":3}", M) && M.size() == 2);
  CHECK(!read("{\\"4\\":true}", M) && M.size() == 2);
  CHECK(!read("{\\"1\\":true}", M) && M.size() == 2);
}''','a value that can not be converted and whose key is in the multimap already','other elements with this key are lost')
seed('J06-c','J06',[(J,"""        TmpDest = new Ty;
        if (!Traits<Ty>::parse(*TmpDest, Lex))
          throw 0;
      }
      catch (...) {
        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
        return false;
      }""","""        TmpDest = new Ty;
        if (!Traits<Ty>::parse(*TmpDest, Lex)) {
          if (Lex.hasErrors()) delete TmpDest;
          return false;
        }
      }
      catch (...) {
        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
        return false;
      }""")],PRE+'''
static int Alive = 0;
struct E { int V = 0; E() { ++Alive; } ~E() { --Alive; } };
namespace json {
template<> struct Traits<E> {
  static bool parse(E &D, Lexer &L) { return Traits<int>::parse(D.V, L); }
};
}
static bool read(const char *T, E *&V) { Lexer L(T); L.setPosition(1); return Traits<E *>::parse(V, L); }
int main() {
  E *V = nullptr;
  CHECK(read("[7]", V) && V->V == 7 && Alive == 1);
  delete V;
  V = nullptr;
  CHECK(!read("[true]", V) && V == nullptr);
  CHECK(Alive == 0);
}''','a pointer to a single value whose conversion fails without an error message','the memory is lost')
seed('J06-d','J06',[(J,"""    auto Pair = Dest.emplace(KeyValue, Ty());
    if (!Pair.second) {
      Lex.errors().insert(JSON_ERROR(8), Lex.start());
      return false;
    }
    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
      Dest.erase(Pair.first);
      return false;
    }""","""    auto Pair = Dest.emplace(KeyValue, Ty());
    if (!Traits<Ty>::parse(Pair.first->second, Lex)) {
      Dest.erase(Pair.first);
      return false;
    }
    if (!Pair.second) {
      Lex.errors().insert(JSON_ERROR(8), Lex.start());
      return false;
    }""")],PRE+'''
typedef std::map<int, int> Map;
static bool read(const char *T, Map &M) { Lexer L(T); L.setPosition(0); return Traits<Map>::parse(M, L); }
int main() {
  Map M;
  CHECK(read("{\\"1\\":2,\\"3\\":4}", M) && M == (Map{{1, 2}, {3, 4}}));
  CHECK(!read("{\\"3\\":true}", M));
  CHECK(M == (Map{{1, 2}, {3, 4}}));
}''','a key that is in the map already','the value that was there is replaced or removed')
seed('J07-a','J07',[(J,"HasEmpty = HasEmpty || Values[I].empty();","HasEmpty = Values[I].empty();")],PRE+'''
int main() {
  std::string S, T;
  Traits<std::vector<const char *>>::unparse(S, {"a", nullptr});
  CHECK(S == "{\\"0\\":\\"a\\"}");
  Traits<std::vector<const char *>>::unparse(T, {nullptr, "b"});
  CHECK(T == "{\\"1\\":\\"b\\"}");
}''','a vector with a null pointer in front of another element','the text is no JSON text and the indices are lost')
seed('J07-b','J07',[(J,"""    if (!mIsFirst)
      mJSON += ',';
    else
      mIsFirst = false;
    Traits<""","""    if (mJSON.size() > 1)
      mJSON += ',';
    Traits<""")],PRE+'''
struct K1 { using ValueType = int; static std::string name() { return "a"; } };
struct K2 { using ValueType = int; static std::string name() { return "b"; } };
typedef bcl::StaticMap<K1, K2> Cells;
int main() {
  Cells C;
  C.value<K1>() = 1;
  C.value<K2>() = 2;
  std::string S, T = "[7,";
  Traits<Cells>::unparse(S, C);
  CHECK(S == "{\\"a\\":1,\\"b\\":2}");
  Traits<Cells *>::unparse(T, &C);
  CHECK(T == "[7,{\\"a\\":1,\\"b\\":2}");
}''','an object that is appended to a text','a comma stands in front of the first pair')
seed('J07-c','J07',[(J,"if (mString.find(':') != String::npos)","if (mString.find(',') != String::npos)")],PRE+'''
struct K1 { using ValueType = int; static std::string name() { return "a"; } };
struct K2 { using ValueType = const char *; static std::string name() { return "b"; } };
struct A : public Object, public bcl::StaticMap<K1, K2> {
  static ObjectName name() { return "A"; }
  A() : Object(name()) { value<K1>() = 1; value<K2>() = nullptr; }
};
namespace json {
template<> struct Traits<A> : public Traits<bcl::StaticMap<K1, K2>> {};
}
int main() {
  A O;
  CHECK(Parser<A>::unparseAsObject(O) == "{\\"name\\":\\"A\\",\\"a\\":1}");
  O.value<K2>() = "x";
  CHECK(Parser<A>::unparseAsObject(O) == "{\\"name\\":\\"A\\",\\"a\\":1,\\"b\\":\\"x\\"}");
}''','an object with one pair only','the comma behind the name is missing')
M='include/bcl/JsonObjectMacros.h'
seed('J08-a','J08',[(M,"JSON_VALUE_17(Name_1_, BCL_JOIN(Type_1_), Name_2_, BCL_JOIN(Type_2_), Name_3_, BCL_JOIN(Type_3_), Name_4_, BCL_JOIN(Type_4_), Name_5_, BCL_JOIN(Type_5_), Name_6_, BCL_JOIN(Type_6_), Name_7_, BCL_JOIN(Type_7_), Name_8_, BCL_JOIN(Type_8_), Name_9_, BCL_JOIN(Type_9_), Name_10_, BCL_JOIN(Type_10_), Name_11_, BCL_JOIN(Type_11_), Name_12_, BCL_JOIN(Type_12_), Name_13_, BCL_JOIN(Type_13_), Name_14_, BCL_JOIN(Type_14_), Name_15_, BCL_JOIN(Type_15_), Name_16_, BCL_JOIN(Type_16_), Name_17_, BCL_JOIN(Type_17_)) \\\n  JSON_OBJECT_ROOT(",
 "JSON_VALUE_17(Name_1_, BCL_JOIN(Type_1_), Name_2_, BCL_JOIN(Type_2_), Name_3_, BCL_JOIN(Type_3_), Name_4_, BCL_JOIN(Type_4_), Name_5_, BCL_JOIN(Type_5_), Name_6_, BCL_JOIN(Type_6_), Name_7_, BCL_JOIN(Type_7_), Name_8_, BCL_JOIN(Type_8_), Name_9_, BCL_JOIN(Type_9_), Name_10_, BCL_JOIN(Type_10_), Name_11_, BCL_JOIN(Type_12_), Name_12_, BCL_JOIN(Type_11_), Name_13_, BCL_JOIN(Type_13_), Name_14_, BCL_JOIN(Type_14_), Name_15_, BCL_JOIN(Type_15_), Name_16_, BCL_JOIN(Type_16_), Name_17_, BCL_JOIN(Type_17_)) \\\n  JSON_OBJECT_ROOT(")],PRE.replace('#include <bcl/Json.h>','#include <cstdint>\n#include <bcl/Json.h>')+'''
JSON_OBJECT_BEGIN(Big)
JSON_OBJECT_ROOT_PAIR_17(Big, a, int, b, int, c, int, d, int, e, int, f, int, g, int, h, int, i, int, j, int, k, int, l, double, m, int, n, int, o, int, p, int, q, int)
Big() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Big)
JSON_DEFAULT_TRAITS(::, Big)
int main() {
  Big B;
  B[Big::l] = 2.5;
  CHECK(B[Big::l] == 2.5);
}''','a top-level object with 17 pairs whose 11th and 12th types differ','the types of two cells are exchanged')
seed('J08-b','J08',[(M,"JSON_OBJECT(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_) \\","JSON_OBJECT(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_12_, Name_11_) \\")],PRE.replace('#include <bcl/Json.h>','#include <cstdint>\n#include <bcl/Json.h>')+'''
JSON_OBJECT_BEGIN(S)
JSON_OBJECT_PAIR_12(S, a, int, b, int, c, int, d, int, e, int, f, int, g, int, h, int, i, int, j, int, k, int, l, int)
JSON_OBJECT_END(S)
JSON_DEFAULT_TRAITS(::, S)
int main() {
  S X;
  X[S::k] = 1; X[S::l] = 2; X[S::a] = X[S::b] = X[S::c] = X[S::d] = X[S::e] = X[S::f] = X[S::g] = X[S::h] = X[S::i] = X[S::j] = 0;
  std::string T;
  json::Traits<S>::unparse(T, X);
  CHECK(T.find("\\"k\\":1,\\"l\\":2}") != std::string::npos);
}''','an object with exactly 12 pairs','its last two cells are exchanged')
seed('J08-c','J08',[(J,"return Ty::name() == mName;","return mName.compare(0, Ty::name().size(), Ty::name()) == 0;")],PRE.replace('#include <bcl/Json.h>','#include <cstdint>\n#include <bcl/Json.h>')+'''
JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR_2(Dog, a, int, b, int)
Dog() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Dog)
JSON_OBJECT_BEGIN(DogHouse)
JSON_OBJECT_ROOT_PAIR_2(DogHouse, a, int, b, int)
DogHouse() : JSON_INIT_ROOT {}
JSON_OBJECT_END(DogHouse)
int main() {
  DogHouse H;
  const json::Object *O = &H;
  CHECK(O->is<DogHouse>());
  CHECK(!O->is<Dog>());
}''','a type whose name is the beginning of the name of the object','the object is taken for an object of the other type')
