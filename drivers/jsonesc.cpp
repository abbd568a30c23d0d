#include "vf.h"
#include "vfstr.h"
#include <bcl/Json.h>
using namespace json;
extern "C" {
void spec_text(std::string *, int Kind) noexcept;    // arbitrary characters, to be converted by the specification of this kind
void spec_out(std::string *) noexcept;               // an arbitrary text that the result is appended to
void spec_is(std::string *, int Quote) noexcept;     // the result
void spec_token(std::string *) noexcept;             // a text where these characters are a token
void spec_contents(Position *, Position *) noexcept; // they stand there
void spec_is_c(const char *) noexcept;               // the result
void spec_is_char(bool, char) noexcept;
}
struct Text {
  std::string J;
  explicit Text(int Kind) { spec_text(&J, Kind); }
};
struct Out {
  std::string J;
  Out() { spec_out(&J); }
};
/// Strings become quoted strings.
extern "C" void drv_unparse() {
  Out O;
  Text T(0);
  Traits<std::string>::unparse(O.J, T.J);
  spec_is(&O.J, 1);
}
/// ... and C strings too.
extern "C" void drv_unparse_c() {
  Out O;
  Text T(1);
  Traits<const char *>::unparse(O.J, T.J.c_str());
  spec_is(&O.J, 1);
}
/// Escape sequences are replaced by what they stand for.
extern "C" void drv_unescape() {
  Text T(2);
  std::string R = Traits<std::string>::unescape(T.J);
  spec_is(&R, 0);
}
/// Single characters.
extern "C" void drv_char() {
  Out O;
  char C = (char)vf_any("character");
  Text T(3);
  T.J += C;
  Traits<char>::unparse(O.J, C);
  spec_is(&O.J, 1);
}
/// A null pointer is nothing.
extern "C" void drv_unparse_null() {
  Out O;
  Text T(3);
  Traits<const char *>::unparse(O.J, nullptr);
  spec_is(&O.J, 2);
}
/// The contents of a token, wherever it stands in a text.
extern "C" std::pair<Position, Position> vf_discard(const Lexer *) {
  std::pair<Position, Position> P;
  spec_contents(&P.first, &P.second);
  return P;
}
extern "C" void drv_parse() {
  Text T(2);
  std::string J, D("old");
  spec_token(&J);
  Lexer L(J);
  bool R = Traits<std::string>::parse(D, L);
  vf_check(R, "every token can be converted to a string");
  spec_is(&D, 0);
}
extern "C" void drv_parse_c() {
  Text T(4);
  std::string J;
  spec_token(&J);
  Lexer L(J);
  char *D = nullptr;
  bool R = Traits<char *>::parse(D, L);
  vf_check(R && D, "every token can be converted to a C string");
  spec_is_c(D);
  delete[] D;
}
extern "C" void drv_parse_char() {
  Text T(5);
  std::string J;
  spec_token(&J);
  Lexer L(J);
  char D = 'x';
  bool R = Traits<char>::parse(D, L);
  spec_is_char(R, D);
}
