#include "vf.h"
#include <cassert>
#include <iterator>
#include <type_traits>
#include <utility>
#include <bcl/Chain.h>
// Nodes belong to two independent chains, the second is there to see that operations on one leave the other alone.
struct Other;
struct Node : bcl::Chain<Node>, bcl::Chain<Node, Other> { int Pad; };
using T = bcl::ChainTraits<Node>;
using O = bcl::ChainTraits<Node, Other>;
using B = bcl::Chain<Node>;
using OB = bcl::Chain<Node, Other>;
using It = bcl::ChainIterator<Node>;
using CIt = bcl::ChainIteratorC<Node>;

// The specification: the successor and the predecessor of each node (-1: none).
template<int NODES> struct Model {
  int Next[NODES], Prev[NODES];
  void init() { for (int I = 0; I < NODES; ++I) Next[I] = Prev[I] = -1; }
  void cutAfter(int A) { if (Next[A] >= 0) Prev[Next[A]] = -1; Next[A] = -1; }
  void cutBefore(int A) { if (Prev[A] >= 0) Next[Prev[A]] = -1; Prev[A] = -1; }
  void link(int A, int B) { Next[A] = B; Prev[B] = A; }
  void spliceNext(int A, int N) {
    if (N < 0) { cutAfter(A); return; }
    cutBefore(N); cutAfter(N);
    int Old = Next[A];
    cutAfter(A);
    link(A, N);
    if (Old >= 0) link(N, Old);
  }
  void splicePrev(int A, int N) {
    if (N < 0) { cutBefore(A); return; }
    cutBefore(N); cutAfter(N);
    int Old = Prev[A];
    cutBefore(A);
    link(N, A);
    if (Old >= 0) link(Old, N);
  }
  void mergeNext(int A, int N) {
    if (N >= 0) cutBefore(N);
    cutAfter(A);
    if (N >= 0) link(A, N);
  }
  void mergePrev(int A, int N) {
    if (N >= 0) cutAfter(N);
    cutBefore(A);
    if (N >= 0) link(N, A);
  }
};
template<int NODES> struct World {
  Node N[NODES];
  Model<NODES> M;
  Node *at(int I) { return I < 0 ? nullptr : &N[I]; }
};
template<int NODES> static void observe(World<NODES> &W) {
  for (int I = 0; I < NODES; ++I) {
    const Node *C = &W.N[I];
    vf_check(T::getNext(static_cast<B *>(&W.N[I])) == W.at(W.M.Next[I]), "the next node is the expected one");
    vf_check(T::getPrev(static_cast<B *>(&W.N[I])) == W.at(W.M.Prev[I]), "the previous node is the expected one");
    vf_check(T::getNext(static_cast<const B *>(C)) == W.at(W.M.Next[I]), "the next constant node is the expected one");
    vf_check(T::getPrev(static_cast<const B *>(C)) == W.at(W.M.Prev[I]), "the previous constant node is the expected one");
  }
}
template<int NODES> static void operation(World<NODES> &W, bool Iterators) {
  int A = vf_nondet(NODES), N = vf_nondet(NODES + 1) - 1;
  if (A == N)
    vf_halt();
  It I(&W.N[A]);
  switch (vf_nondet(4)) {
  case 0: vf_event("spliceNext"); if (Iterators) I.spliceNext(W.at(N)); else T::spliceNext(W.at(N), &W.N[A]); W.M.spliceNext(A, N); break;
  case 1: vf_event("splicePrev"); if (Iterators) I.splicePrev(W.at(N)); else T::splicePrev(W.at(N), &W.N[A]); W.M.splicePrev(A, N); break;
  case 2: vf_event("mergeNext"); if (Iterators) I.mergeNext(W.at(N)); else T::mergeNext(W.at(N), &W.N[A]); W.M.mergeNext(A, N); break;
  case 3: vf_event("mergePrev"); if (Iterators) I.mergePrev(W.at(N)); else T::mergePrev(W.at(N), &W.N[A]); W.M.mergePrev(A, N); break;
  }
}
// All histories of operations on the nodes of arbitrary chains.
extern "C" void drv_ops() {
  World<3> W;
  W.M.init();
  observe(W);
  while (vf_nondet(2)) {
    operation(W, false);
    observe(W);
  }
}
// One operation on any two of six nodes (an operation concerns two nodes and their neighbours) which form any
// set of chains and rings, up to the names of the nodes.
extern "C" void drv_step() {
  World<6> W;
  W.M.init();
  int First = 0;
  for (int I = 0; I < 6; ++I) {
    if (I < 5 && vf_nondet(2)) {
      T::mergeNext(&W.N[I + 1], &W.N[I]);
      W.M.link(I, I + 1);
    } else {
      if (First < I && vf_nondet(2)) {
        T::mergeNext(&W.N[First], &W.N[I]);
        W.M.link(I, First);
      }
      First = I + 1;
    }
  }
  operation(W, false);
  observe(W);
}
// The operations of iterators; the other chain of the same nodes is untouched.
extern "C" void drv_iter() {
  World<3> W;
  W.M.init();
  O::spliceNext(static_cast<OB *>(&W.N[1]), static_cast<OB *>(&W.N[0]));
  while (vf_nondet(2)) {
    operation(W, true);
    observe(W);
    vf_check(O::getNext(static_cast<OB *>(&W.N[0])) == &W.N[1] && O::getPrev(static_cast<OB *>(&W.N[1])) == &W.N[0] &&
             !O::getPrev(static_cast<OB *>(&W.N[0])) && !O::getNext(static_cast<OB *>(&W.N[1])), "another chain of the same nodes is untouched");
  }
  int A = 0, Nx = W.M.Next[A], Pv = W.M.Prev[A];
  Node *P = &W.N[A];
  It I(P);
  CIt C(P);
  const Node *CP = P;
  vf_check(bool(I) && bool(C) && !bool(It(nullptr)) && !bool(CIt(nullptr)), "an iterator is true exactly if it points to a node");
  vf_check(&*I == P && &*C == CP && I.get() == P && C.get() == CP, "an iterator refers to its node");
  vf_check(I.operator->() == P && C.operator->() == CP, "an iterator gives access to its node");
  vf_check(I.getNext() == W.at(Nx) && C.getNext() == W.at(Nx) && I.getPrev() == W.at(Pv) && C.getPrev() == W.at(Pv), "an iterator knows the neighbours of its node");
  vf_check(I == C && !(I != C) && I == CP && !(I != CP) && P == C && !(P != C), "iterators at one node are equal");
  CIt D(&W.N[1]);
  vf_check(!(I == D) && I != D && !(I == &W.N[1]) && I != &W.N[1] && !(P == D) && P != D, "iterators at different nodes differ");
  switch (vf_nondet(8)) {
  case 0: { vf_event("++"); It &R = ++I; vf_check(&R == &I, "++ returns the iterator"); vf_check(I == CIt(W.at(Nx)), "++ moves to the next node"); break; }
  case 1: { vf_event("post++"); It R = I++; vf_check(R.get() == P, "postincrement returns the old position"); vf_check(I == CIt(W.at(Nx)), "postincrement moves to the next node"); break; }
  case 2: { vf_event("--"); It &R = --I; vf_check(&R == &I, "-- returns the iterator"); vf_check(I == CIt(W.at(Pv)), "-- moves to the previous node"); break; }
  case 3: { vf_event("post--"); It R = I--; vf_check(R.get() == P, "postdecrement returns the old position"); vf_check(I == CIt(W.at(Pv)), "postdecrement moves to the previous node"); break; }
  case 4: { vf_event("const ++"); CIt &R = ++C; vf_check(&R == &C, "++ returns the iterator"); vf_check(C == CIt(W.at(Nx)), "++ moves to the next node"); break; }
  case 5: { vf_event("const post++"); CIt R = C++; vf_check(R.get() == P, "postincrement returns the old position"); vf_check(C == CIt(W.at(Nx)), "postincrement moves to the next node"); break; }
  case 6: { vf_event("const --"); CIt &R = --C; vf_check(&R == &C, "-- returns the iterator"); vf_check(C == CIt(W.at(Pv)), "-- moves to the previous node"); break; }
  case 7: { vf_event("const post--"); CIt R = C--; vf_check(R.get() == P, "postdecrement returns the old position"); vf_check(C == CIt(W.at(Pv)), "postdecrement moves to the previous node"); break; }
  }
  I = P;
  C = CP;
  vf_check(I.get() == P && C.get() == CP, "assignment moves an iterator to a node");
}
