import sys; sys.path.insert(0,'/verif/dev')
from seedlib import seed, DEMO
F='include/bcl/transparent_queue.h'
PRE='#include <cassert>\n#include <cstring>\n#include <queue>\n#include <bcl/transparent_queue.h>\ntypedef bcl::TransparentQueue<int> Queue;\n'
seed('Q01-b','Q01',[(F,"return mIsSingle ? mIsEmpty ? 0 : 1 : mQueue->size();","return mIsSingle ? mValue ? 1 : 0 : mQueue->size();")],
PRE+'''
int main() {
  Queue Q;
  Q.push(nullptr);
  return Q.size() != 1 || Q.empty();
}
''',"a null pointer as the only element","the size of a queue with one null pointer is 0")
seed('Q02-b','Q02',[(F,"""    auto V = mQueue->front();
    mQueue->pop();
    return V;""","""    auto V = mQueue->front();
    mQueue->pop();
    if (mQueue->size() == 1) {
      auto Queue = mQueue;
      mIsSingle = true;
      mValue = Queue->front();
      delete Queue;
    }
    return V;""")],
PRE+'''
int main() {
  int A, B;
  Queue P, Q;
  P.push(&A);
  P.push(&B);
  P.swap(Q);
  if (Q.pop() != &A) return 2;
  return Q.size() != 1 || Q.empty() || Q.pop() != &B;
}
''',"swap() of an empty queue with one of two elements, then pop()","the last element is lost: swap() does not update the flag that pop() relies on now")
seed('Q03-b','Q03',[(F,"""        Container Tmp;
        if (!mIsEmpty)
          Tmp.push(mValue);
        return Tmp < *TQ.mQueue;""","""        if (TQ.mQueue->empty())
          return false;
        return mIsEmpty || mValue < TQ.mQueue->front();""")],
PRE+'''
int main() {
  int A[2];
  Queue P, Q;
  P.push(A);
  Q.push(A);
  Q.push(A + 1);
  return !(P < Q) || P >= Q;
}
''',"a queue of one element that is a prefix of a longer one","a prefix is not less than the longer queue")
