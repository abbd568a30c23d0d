// Searches in strings, used in place of those of the standard library: the
// characters before the result are looked at one by one.
#ifndef VFSTR_H
#define VFSTR_H
#include <string>
extern "C" std::size_t vf_find(const std::string *S, char C, std::size_t P) {
  for (; P < S->size(); ++P)
    if ((*S)[P] == C)
      return P;
  return std::string::npos;
}
static inline bool vf_in(const char *Set, char C) {
  for (; *Set; ++Set)
    if (*Set == C)
      return true;
  return false;
}
extern "C" std::size_t vf_find_first_of(const std::string *S, const char *Set, std::size_t P) {
  for (; P < S->size(); ++P)
    if (vf_in(Set, (*S)[P]))
      return P;
  return std::string::npos;
}
extern "C" std::size_t vf_find_first_not_of(const std::string *S, const char *Set, std::size_t P) {
  for (; P < S->size(); ++P)
    if (!vf_in(Set, (*S)[P]))
      return P;
  return std::string::npos;
}
#endif
