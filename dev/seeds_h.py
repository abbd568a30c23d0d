from seedlib import seed
TWO='''#!/bin/bash
# Two translation units that include the headers are linked.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
F="-std=gnu++17 -w -I $PWD/include -I $PWD/_build"
g++ $F -c "$H/one.cpp" -o "$T/one.o" || exit 3
g++ $F -c "$H/two.cpp" -o "$T/two.o" || exit 3
g++ "$T/one.o" "$T/two.o" -o "$T/demo" -lpthread || exit 4
timeout 60 "$T/demo"
'''
def two(id, edits, one, two_, needs, breaks):
    seed(id,'H01',edits,None,needs,breaks,TWO)
    open('/verif/seeded/%s/one.cpp'%id,'w').write(one)
    open('/verif/seeded/%s/two.cpp'%id,'w').write(two_)
two('H01-a',[('include/bcl/Json.h','inline std::string_view toString(Keyword K) noexcept {','std::string_view toString(Keyword K) noexcept {')],
 '#include <bcl/Json.h>\nint main() { return json::toString(json::Keyword::TRUE) == "true" ? 0 : 1; }\n','#include <bcl/Json.h>\nint size() { return json::toString(json::Keyword::FALSE).size(); }\n',
 'a program with two translation units that include Json.h','it cannot be linked: toString() is defined twice')
two('H01-b',[('include/bcl/marray_f.h','#ifndef BCL_MARRAY_F_H\n#define BCL_MARRAY_F_H','#ifndef BCL_MARRAY_H\n#define BCL_MARRAY_H')],
 '#include <bcl/marray_f.h>\nint main() { return 0; }\n','#include <cstddef>\n#include <bcl/marray.h>\n#include <bcl/marray_f.h>\nint f() { return sizeof(bcl::marray<double, 2>) + sizeof(bcl::marray_f<double, 2>); }\n',
 'a translation unit that includes marray.h and marray_f.h','the second of the headers declares nothing')
two('H01-c',[('include/bcl/transparent_queue.h','#include <bcl/IteratorDataAdaptor.h>' if False else '#include <cstddef>','')] if False else
 [('include/bcl/IntrusiveConnection.h','#include <condition_variable>\n','')],
 '#include <bcl/IntrusiveConnection.h>\nint main() { return 0; }\n','int g() { return 0; }\n',
 'a translation unit that includes IntrusiveConnection.h before anything that includes <condition_variable>','it does not compile')
