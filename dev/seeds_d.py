import sys; sys.path.insert(0,'/verif/dev')
from seedlib import seed, DEMO
F='include/bcl/Diagnostic.h'
PRE='#include <bcl/Diagnostic.h>\n#include <string>\n#include <cwchar>\n'
seed('D01-a','D01',[(F,'''PrefixFmt = "%s C%zu(%ju): ";''','''PrefixFmt = "%s C%u(%ju): ";''')],
PRE+'''
int main() {
  bcl::Diagnostic D("error");
  D.insert(0x100000005, "text %d", 7, 3);
  return std::string(*D.begin()) != "error C4294967301(7): text 3";
}
''',"a code that does not fit into 32 bits","the code in the message is truncated")
seed('D01-b','D01',[(F,"""    std::swap(mInternalError, Other.mInternalError);
""","""    if (!mDiagnostics.empty() || !Other.mDiagnostics.empty())
      std::swap(mInternalError, Other.mInternalError);
""")],
PRE+'''
int main() {
  bcl::Diagnostic A("error"), B("error");
  if (A.insert(1, "%lc", 0, (wint_t)0x3b1)) return 2;
  A.swap(B);
  return A.internal_size() != 0 || B.internal_size() != 1;
}
''',"swap of containers with failures but without messages","the failure counters are not exchanged")
seed('D02-a','D02',[(F,"if (PreSize < 0 || ErrSize < 0) {","if (PreSize + ErrSize < 0) {")],
PRE+'''
int main() {
  bcl::Diagnostic A("error");
  bool R = A.insert(1, "%lc", 0, (wint_t)0x3b1);
  return R || A.internal_size() != 1;
}
''',"a text that cannot be formatted","the prefix is written beyond the end of its buffer")
