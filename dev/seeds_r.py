import sys; sys.path.insert(0,'/verif/dev')
from seedlib import seed, DEMO
F='include/bcl/RedirectIO.h'
PRE='''#include <bcl/RedirectIO.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include <string>
using bcl::RedirectIO;
static int openFiles() {
  int N = 0;
  DIR *D = opendir("/proc/self/fd");
  while (readdir(D)) ++N;
  closedir(D);
  return N;
}
'''
seed('R01-a','R01',[(F,"""    mDiffStart = mDiffPos = std::ftell(mFile);
    if (mDiffPos == -1) {
      storeErrNo("ftell");
      if (fclose(mFile) != 0)
        storeErrNo("fclose");
      mFile = nullptr;
      return;
    }""","""    mDiffStart = mDiffPos = std::ftell(mFile);
    if (mDiffPos == -1) {
      storeErrNo("ftell");
      mFile = nullptr;
    }""")],
PRE+'''
int main() {
  // The position in a FIFO is not available: the redirection fails.
  mkfifo("fifo", 0600);
  int Spare = open("spare", O_CREAT | O_RDWR, 0600);
  { RedirectIO R(Spare, "fifo"); if (!R.hasErrors()) return 2; }
  int Before = openFiles();
  for (int I = 0; I < 5; ++I) { RedirectIO R(Spare, "fifo"); if (!R.hasErrors()) return 2; }
  return openFiles() > Before;
}
''',"a target whose position is not available (ftell fails)","the target file stays open after a failed redirection")
seed('R02-a','R02',[(F,"""    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {""","""    if (std::fseek(mFile, mDiffPos, SEEK_SET) > 0) {""")],
PRE+'''
static bool Fail = false;
extern "C" int fseek(FILE *F, long P, int W) {
  if (Fail) { errno = EIO; return -1; }
  return fseeko(F, P, W);
}
int main() {
  int Spare = open("spare", O_CREAT | O_RDWR, 0600);
  RedirectIO R(Spare, "target");
  if (write(Spare, "hello", 5) != 5) return 2;
  if (R.diff() != "hello" || R.hasErrors()) return 3;
  if (write(Spare, "again", 5) != 5) return 2;
  Fail = true;
  return R.diff() != "" || !R.hasErrors();
}
''',"a failing fseek() while the changes are compared","diff() returns nothing or something wrong without an error")
seed('R02-b','R02',[(F,"      while (fgetc(mFile) != EOF);","      while (fgetc(mFile) > 0);")],
PRE+'''
int main() {
  int T = open("target", O_CREAT | O_RDWR, 0600);
  if (write(T, "a\\0b", 3) != 3) return 2;
  int Spare = open("spare", O_CREAT | O_RDWR, 0600);
  RedirectIO R(Spare, "target", RedirectIO::Mode::Append);
  return R.hasErrors();
}
''',"appending to a file that contains a null character","the redirection fails with an error although no operation failed")
seed('R03-a','R03',[(F,"void resetDiffPos() noexcept { mDiffPos = mDiffStart; }","void resetDiffPos() noexcept { mDiffPos = 0; }")],
PRE+'''
int main() {
  int T = open("target", O_CREAT | O_RDWR, 0600);
  if (write(T, "old", 3) != 3) return 2;
  int Spare = open("spare", O_CREAT | O_RDWR, 0600);
  RedirectIO R(Spare, "target", RedirectIO::Mode::Append);
  if (write(Spare, "new", 3) != 3) return 2;
  if (R.diff() != "new" || !R.setDiffPos()) return 3;
  R.resetDiffPos();
  return R.diff() != "new";
}
''',"append mode, the mark is moved and reset","diff() after resetDiffPos() also returns what was in the file before the redirection")
seed('R01-b','R01',[(F,"""    if (mFile)
      fclose(mFile);
    mErrors = std::move(Other.mErrors);""","""    if (mFile && Other.mFile)
      fclose(mFile);
    mErrors = std::move(Other.mErrors);""")],
PRE+'''
int main() {
  int From = open("/dev/null", O_WRONLY);
  int N = openFiles();
  {
    RedirectIO R(From, "t.txt");
    R = RedirectIO();
  }
  return openFiles() != N;
}
''',"a redirection that is overwritten by an empty one","the file stays open")
seed('R03-b','R03',[(F,"""    mDiffPos = std::ftell(mFile);
    if (mDiffPos == -1) {
      storeErrNo("ftell");
      return false;
    }
    return true;""","""    mDiffStart = mDiffPos = std::ftell(mFile);
    if (mDiffPos == -1) {
      storeErrNo("ftell");
      return false;
    }
    return true;""")],
PRE+'''
#include <unistd.h>
int main() {
  int From = open("/dev/null", O_WRONLY);
  RedirectIO R(From, "t.txt");
  if (write(From, "abc", 3) != 3 || !R.setDiffPos()) return 2;
  if (write(From, "de", 2) != 2) return 2;
  R.resetDiffPos();
  return R.diff() != "abcde";
}
''',"resetDiffPos() after setDiffPos()","the mark is not moved back to the position at redirection")
