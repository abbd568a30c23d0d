#include "vf.h"
#include "vfstr.h"
#include <bcl/Json.h>
using namespace json;
extern "C" {
void spec_text(std::string *) noexcept;              // an arbitrary text, partly read
Position spec_somewhere() noexcept;                  // the position where the unread part begins
Position spec_forget(Position, Lexer *) noexcept;       // any text, any history
void spec_start(Position) noexcept;                  // the next token is looked for at this position
void spec_settle() noexcept;                           // the characters of the token are forgotten
void spec_errors(int N, unsigned Code, Position P) noexcept; // the errors reported since the last call; -1: any
void spec_token(int Ret, Position S, Position E, Position N, int Kinds, Position QS, Position QE) noexcept;
}
static int kinds(const Lexer &L) {
  int K = 0;
  const Token T[] = {Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::LEFT_BRACE, Token::RIGHT_BRACE,
                     Token::COMMA, Token::COLON, Token::NUMBER, Token::IDENTIFIER, Token::KEYWORD};
#define K_(N, E) K |= int(E) << N;
  K_(0, L.is(T[0])) K_(1, L.is(T[1])) K_(2, L.is(T[2])) K_(3, L.is(T[3])) K_(4, L.is(T[4])) K_(5, L.is(T[5]))
  K_(6, L.is(T[6])) K_(7, L.is(T[7])) K_(8, L.is(T[8]))
  K_(9, L.isIntegral()) K_(10, L.isFloatingPoint())
  K_(11, L.isKeyword(Keyword::TRUE)) K_(12, L.isKeyword(Keyword::FALSE)) K_(13, L.isKeyword(Keyword::NO_VALUE))
  return K;
}
static void token(int Ret, Lexer &L) {
  spec_settle();
  auto Q = L.discardQuote();
  spec_token(Ret, L.start(), L.end(), L.next(), kinds(L), Q.first, Q.second);
}
extern "C" void drv_lexer() {
  String J;
  spec_text(&J);
  Lexer L(J);
  vf_check(L.start() == 0 && L.end() == 0 && L.next() == 0 && !kinds(L) && !L.hasErrors(),
           "a new lexer has read nothing");
  vf_check(&L.json() != &J && L.json().size() == J.size(), "the lexer keeps its own copy of the text");
  Position P = spec_somewhere();
  spec_start(P);
  L.setPosition(P);
  token(2, L);
  spec_start(spec_forget(L.next(), &L));
  bool R = L.goToNext();
  token(R, L);
}
struct Seen {
  Position S, E, N;
  int K;
  explicit Seen(const Lexer &L) : S(L.start()), E(L.end()), N(L.next()), K(kinds(L)) {}
  void same(const Lexer &L, const char *What) const {
    vf_check(S == L.start(), What);
    vf_check(E == L.end(), What);
    vf_check(N == L.next(), What);
    vf_check(K == kinds(L), What);
  }
};
/// Positions are stored and restored like a stack.
extern "C" void drv_store() {
  // Neighbouring tokens of all kinds.
  const char *const T[] = {"\"s\" 1", "1.5 {", " true null", "[ false", "x \"n\"", "2 3.5", "3.5 2", "null k", "null 1", "true", "1 "};
  String J(T[vf_nondet(sizeof T / sizeof T[0])]);
  Lexer L(J);
  L.setPosition(0);
  Seen A(L);
  L.storePosition();
  L.goToNext();
  Seen B(L);
  L.storePosition();
  L.storePosition();
  if (vf_bool("read on"))
    L.goToNext();
  else
    L.resetPosition();
  L.restorePosition();
  B.same(L, "the last stored position is restored");
  L.goToNext();
  L.restorePosition();
  B.same(L, "the stored position is restored after another one");
  L.resetPosition();
  vf_check(L.start() == 0 && L.end() == 0 && L.next() == 0 && !kinds(L), "resetPosition() goes to the beginning");
  L.restorePosition();
  A.same(L, "the first stored position is restored");
  L.goToNext();
  B.same(L, "a restored lexer reads on as before");
  L.restorePosition();
  B.same(L, "nothing is restored if nothing is stored");
}
static void check(bool R, Lexer &L, bool Is, unsigned Code) {
  vf_check(R == Is, "a check succeeds exactly for tokens of its kind");
  spec_errors(!Is, Code, L.start());
}
/// Checks of the kind of the current token.
extern "C" void drv_check() {
  String J;
  spec_text(&J);
  Lexer L(J);
  Position P = spec_somewhere();
  spec_start(P);
  L.setPosition(P);
  spec_settle();
  spec_errors(-1, 0, 0);
  if (vf_bool("special")) {
    const Token T[] = {Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::LEFT_BRACE, Token::RIGHT_BRACE, Token::COMMA, Token::COLON};
    Token K = T[vf_nondet(6)];
    bool Is = L.is(K);
    check(L.checkSpecial(K), L, Is, 2);
  } else if (vf_bool("identifier")) {
    bool Is = L.is(Token::IDENTIFIER);
    check(L.checkIdentifier(), L, Is, 4);
  } else {
    bool Is = L.is(Token::IDENTIFIER) | L.is(Token::NUMBER) | L.is(Token::KEYWORD);
    check(L.checkValue(), L, Is, 5);
  }
}
