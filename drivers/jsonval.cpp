#include "vf.h"
#include "vfstr.h"
#include <bcl/Json.h>
using namespace json;
extern "C" {
void spec_token(std::string *) noexcept;              // a text with a token of any kind and any contents
void spec_contents(Position *, Position *) noexcept;  // they stand there
int spec_kind() noexcept;                             // the kind of the token
bool spec_word(int) noexcept;                         // a keyword?
void spec_out(std::string *) noexcept;                // an arbitrary text that the result is appended to
void spec_int(bool R, long V, int Bits, bool Sign) noexcept;
void spec_float(bool R, const void *, int Bits) noexcept;
void spec_bool(bool R, int V) noexcept;
void spec_maybe(bool R, bool Has, long V) noexcept;
void spec_written(std::string *, int Kind, long V) noexcept;
void spec_number(const void *, int Bits) noexcept;    // an arbitrary floating-point number
void spec_written_float(std::string *, const void *, int Bits) noexcept;
}
/// The contents of a token, wherever it stands in a text.
extern "C" std::pair<Position, Position> vf_discard(const Lexer *) {
  std::pair<Position, Position> P;
  spec_contents(&P.first, &P.second);
  return P;
}
extern "C" bool vf_is(const Lexer *, Token T) { return spec_kind() == (int)T; }
extern "C" bool vf_isKeyword(const Lexer *, Keyword K) { return spec_word((int)K); }
/// Numbers and keywords contain no escape sequences.
extern "C" String vf_unescape(const String &S) { return S; }
template<class T> static void integral() {
  std::string J;
  spec_token(&J);
  Lexer L(J);
  T D = 0;
  bool R = Traits<T>::parse(D, L);
  spec_int(R, (long)D, 8 * sizeof(T), std::is_signed<T>::value);
}
extern "C" void drv_int() {
  switch (vf_nondet(6)) {
  case 0: integral<int>(); break;
  case 1: integral<long>(); break;
  case 2: integral<long long>(); break;
  case 3: integral<unsigned>(); break;
  case 4: integral<unsigned long>(); break;
  case 5: integral<unsigned long long>(); break;
  }
}
template<class T> static void floating() {
  std::string J;
  spec_token(&J);
  Lexer L(J);
  T D = 0;
  bool R = Traits<T>::parse(D, L);
  spec_float(R, &D, 8 * sizeof(T));
}
extern "C" void drv_float() {
  if (vf_bool("double"))
    floating<double>();
  else
    floating<float>();
}
extern "C" void drv_bool() {
  std::string J;
  spec_token(&J);
  Lexer L(J);
  bool D = vf_bool("old");
  bool R = Traits<bool>::parse(D, L);
  spec_bool(R, R ? D : 2);
}
extern "C" void drv_optional() {
  std::string J;
  spec_token(&J);
  Lexer L(J);
  std::optional<int> D;
  bool Old = vf_bool("old");
  if (Old)
    D = 1234;
  bool R = Traits<std::optional<int>>::parse(D, L);
  spec_maybe(R, R && D.has_value(), R && D.has_value() ? *D : 0);
}
/// Writing.
struct Out {
  std::string J;
  Out() { spec_out(&J); }
};
template<class T> static void write(int Kind) {
  Out O;
  T V = (T)vf_any("value");
  Traits<T>::unparse(O.J, V);
  spec_written(&O.J, Kind, (long)V);
}
extern "C" void drv_write() {
  switch (vf_nondet(7)) {
  case 0: write<int>(1); break;
  case 1: write<long>(1); break;
  case 2: write<long long>(1); break;
  case 3: write<unsigned>(0); break;
  case 4: write<unsigned long>(0); break;
  case 5: write<unsigned long long>(0); break;
  case 6: {
    Out O;
    bool V = vf_bool("value");
    Traits<bool>::unparse(O.J, V);
    spec_written(&O.J, 2, V);
    break;
  }
  }
}
template<class T> static void write_floating() {
  Out O;
  T V;
  spec_number(&V, 8 * sizeof(T));
  Traits<T>::unparse(O.J, V);
  spec_written_float(&O.J, &V, 8 * sizeof(T));
}
extern "C" void drv_write_float() {
  if (vf_bool("double"))
    write_floating<double>();
  else
    write_floating<float>();
}
extern "C" void drv_write_optional() {
  Out O;
  std::optional<int> V;
  if (vf_bool("has"))
    V = (int)vf_any("value");
  Traits<std::optional<int>>::unparse(O.J, V);
  if (V)
    spec_written(&O.J, 1, *V);
  else
    spec_written(&O.J, 3, 0);
}
