"""Writes drivers/jsonobj.cpp: objects of every size the macros of Json.h support."""
import sys
o = []
w = o.append
w('''// Objects described with the macros of Json.h, of every size these support.
// Generated by dev/gen_jsonobj.py.
#include "vf.h"
#include <cstdint>
#include <map>
#include <bcl/Json.h>

extern "C" void spec_text(const std::string *S, const char *Text) noexcept;  // *S has the characters of Text
extern "C" void spec_name(std::string *S) noexcept;              // *S becomes an unknown text
extern "C" bool spec_same(const std::string *A, const std::string *B) noexcept;

template<int N> struct V { void *P; };
// The cells of an object in order.
template<class T> struct Cells;
template<class... T> struct Cells<bcl::StaticMap<T...>> { using Type = std::tuple<T...>; };
template<class A, class B> inline constexpr bool Same = std::is_same<A, B>::value;
template<class A, class B> inline constexpr bool Is = std::is_base_of<B, A>::value;
template<class T> using Bare = std::remove_cv_t<std::remove_reference_t<T>>;
''')
N = 30
def ty(k, n):
    # some types have a comma
    if k in (1, n // 2, n): return 'BCL_JOIN(std::pair<V<%d>, V<%d>>)' % (n, k), 'std::pair<V<%d>, V<%d>>' % (n, k)
    return 'V<%d>' % (k + 100 * n), 'V<%d>' % (k + 100 * n)
for root in (0, 1):
    for n in range(1, N + 1):
        ob = ('R%d' if root else 'S%d') % n
        w('JSON_OBJECT_BEGIN(%s)' % ob)
        args = ', '.join('n%d, %s' % (k, ty(k, n)[0]) for k in range(1, n + 1))
        w('JSON_OBJECT_%sPAIR%s(%s, %s)' % ('ROOT_' if root else '', '' if n == 1 else '_%d' % n, ob, args))
        if root:
            w('%s() : JSON_INIT_ROOT {}' % ob)
        w('JSON_OBJECT_END(%s)' % ob)
w('''
// Objects described field by field.
namespace sub {
JSON_OBJECT_BEGIN(Free)
JSON_VALUE(left, V<1>)
JSON_VALUE(right, V<2>)
JSON_VALUE(more, V<3>)
JSON_OBJECT(Free, right, more, left)
JSON_ACCESS(Free, left)
JSON_ACCESS(Free, right)
JSON_ACCESS(Free, more)
Free(V<2> R, V<3> M, V<1> L) : JSON_INIT(Free, R, M, L) {}
JSON_OBJECT_END(Free)
JSON_OBJECT_BEGIN(FreeRoot)
JSON_VALUE(left, V<1>)
JSON_VALUE(right, V<2>)
JSON_OBJECT_ROOT(FreeRoot, left, right)
JSON_ACCESS(FreeRoot, left)
JSON_ACCESS(FreeRoot, right)
FreeRoot(V<1> L, V<2> R) : JSON_INIT_ROOT, JSON_INIT(FreeRoot, L, R) {}
JSON_OBJECT_END(FreeRoot)
}
''')
for root in (0, 1):
    for n in range(1, N + 1):
        w('JSON_DEFAULT_TRAITS(::, %s)' % (('R%d' if root else 'S%d') % n))
w('JSON_DEFAULT_TRAITS(::sub::, Free)\nJSON_DEFAULT_TRAITS(sub::, FreeRoot)\n')
for root in (0, 1):
    for n in range(1, N + 1):
        ob = ('R%d' if root else 'S%d') % n
        im = 'json_::%sImpl::' % ob
        w('static_assert(Same<Cells<%sBase>::Type, std::tuple<%s>>, "the cells of an object are not its %d pairs in order");' % (im, ', '.join(im + 'n%d' % k for k in range(1, n + 1)), n))
        for k in range(1, n + 1):
            w('static_assert(Same<%sn%d::ValueType, %s> && Same<JSON_VALUE_TYPE(%s, n%d), %s> && Same<Bare<decltype(%s::n%d)>, %sn%d> && Same<Bare<decltype(std::declval<%s &>()[%s::n%d])>, %s>, "pair %d of %d does not have its type");'
              % (im, k, ty(k, n)[1], ob, k, ty(k, n)[1], ob, k, im, k, ob, ob, k, ty(k, n)[1], k, n))
        w('static_assert(Is<%s, %sBase> && Is<json::Traits<%s>, json::Traits<%sBase>> && %sIs<%s, json::Object>, "an object is not made of its cells");' % (ob, im, ob, im, '' if root else '!', ob))
w('''static_assert(Same<Cells<sub::json_::FreeImpl::Base>::Type, std::tuple<sub::json_::FreeImpl::right, sub::json_::FreeImpl::more, sub::json_::FreeImpl::left>>, "the cells of an object are not those named");
static_assert(Same<Cells<sub::json_::FreeRootImpl::Base>::Type, std::tuple<sub::json_::FreeRootImpl::left, sub::json_::FreeRootImpl::right>>, "the cells of an object are not those named");
static_assert(Is<json::Traits<sub::Free>, json::Traits<sub::json_::FreeImpl::Base>> && Is<json::Traits<sub::FreeRoot>, json::Traits<sub::json_::FreeRootImpl::Base>>, "an object is not converted cell by cell");
static_assert(Is<sub::FreeRoot, json::Object> && !Is<sub::Free, json::Object>, "top-level objects and no others are derived from Object");
''')
for root in (0, 1):
    w('extern "C" void drv_names%d() {' % root)
    for n in range(1, N + 1):
        ob = ('R%d' if root else 'S%d') % n
        for k in range(1, n + 1):
            w('  spec_text(&%s::n%d.name(), "n%d");' % (ob, k, k))
        if root:
            w('  spec_text(&%s::name(), "%s");' % (ob, ob))
    w('}')
w('''
extern "C" void drv_init() {
  void *A = vf_token("left"), *B = vf_token("right"), *C = vf_token("more");
  sub::Free F(V<2>{B}, V<3>{C}, V<1>{A});
  vf_check(F[sub::Free::left].P == A, "a cell has the value it was given");
  vf_check(F[sub::Free::right].P == B, "a cell has the value it was given");
  vf_check(F[sub::Free::more].P == C, "a cell has the value it was given");
  sub::FreeRoot R(V<1>{A}, V<2>{B});
  vf_check(R[sub::FreeRoot::left].P == A, "a cell of a top-level object has the value it was given");
  vf_check(R[sub::FreeRoot::right].P == B, "a cell of a top-level object has the value it was given");
  spec_text(&R.getName(), "FreeRoot");
  const sub::FreeRoot Copy(R);
  vf_check(Copy[sub::FreeRoot::left].P == A && Copy[sub::FreeRoot::right].P == B, "a copy of an object has its values");
  spec_text(&Copy.getName(), "FreeRoot");
}

extern "C" void drv_object() {
  R2 X;
  spec_text(&X.getName(), "R2");
  json::Object *O = &X;
  vf_check(O->is<R2>(), "an object is of its own type");
  vf_check(!O->is<R3>(), "an object is of no type with another name");
  vf_check(&O->as<R2>() == &X, "as() gives the object itself");
  const json::Object *CO = O;
  vf_check(&CO->as<R2>() == &X, "as() gives the object itself");
  std::string S;
  spec_name(&S);
  json::Object Any(S);
  vf_check(Any.is<R2>() == spec_same(&S, &R2::name()), "an object is of a type if it has the name of the type");
  vf_check(spec_same(&Any.getName(), &S), "an object has the name it was given");
}
''')
open('/verif/drivers/jsonobj.cpp', 'w').write('\n'.join(o))
