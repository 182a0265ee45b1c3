// Executes operations on nodes of bcl::Chain. Input: "op t a n ; ..." per line.
// Nodes belong to two chains (tags 1: void, 2: Other) and hold a number, which
// must never change.
#include <bcl/Chain.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
struct Other {};
struct Node : public bcl::Chain<Node>, public bcl::Chain<Node, Other> {
  int Before = 0, Id = 0, After = 0;
};
static int id(const Node *P) { return !P ? 0 : (P->Before == -P->Id && P->After == P->Id * 7) ? P->Id : -1; }
static int Step = 0;

template<class Tag> static int apply(const std::string &Op, Node *A, Node *N, Node *&It, int &R) {
  using C = bcl::Chain<Node, Tag>;
  using T = bcl::ChainTraits<Node, Tag>;
  bool ViaIterator = Step++ % 2;
  if (Op == "splicenext" || Op == "spliceprev" || Op == "mergenext" || Op == "mergeprev") {
    if (ViaIterator) {
      bcl::ChainIterator<Node, Tag> I(static_cast<C *>(A));
      if (Op == "splicenext") I.spliceNext(N);
      else if (Op == "spliceprev") I.splicePrev(N);
      else if (Op == "mergenext") I.mergeNext(N);
      else I.mergePrev(N);
      if (I.get() != A) return 1;
    } else {
      if (Op == "splicenext") T::spliceNext(N, A);
      else if (Op == "spliceprev") T::splicePrev(N, A);
      else if (Op == "mergenext") T::mergeNext(N, A);
      else T::mergePrev(N, A);
    }
    return 0;
  }
  auto node = [](auto &X) -> Node * { return X ? const_cast<Node *>(&*X) : nullptr; };
  if (Op == "set") {
    bcl::ChainIterator<Node, Tag> I(static_cast<C *>(It));
    bcl::ChainIteratorC<Node, Tag> K(static_cast<const C *>(It));
    if (&(I = static_cast<C *>(N)) != &I || &(K = static_cast<const C *>(N)) != &K) return 8;
    It = N;
    return node(I) == N && node(K) == N ? 0 : 9;
  }
  if (Op == "look") return 0;
  if (!It) return 2;
  // the same step by a constant and by a mutable iterator
  bcl::ChainIterator<Node, Tag> I(static_cast<C *>(It));
  bcl::ChainIteratorC<Node, Tag> K(static_cast<const C *>(It));
  if (!(I == It) || I != It || !(It == K) || It != K || &*I != It || I->Id != It->Id || &*K != It || K->Id != It->Id || I.get() != It || K.get() != It) return 3;
  Node *RI, *RK;
  if (Op == "preinc") { auto &X = ++I; auto &Y = ++K; RI = node(X); RK = node(Y); if (&X != &I || &Y != &K) return 4; }
  else if (Op == "postinc") { auto X = I++; auto Y = K++; RI = node(X); RK = node(Y); }
  else if (Op == "predec") { auto &X = --I; auto &Y = --K; RI = node(X); RK = node(Y); if (&X != &I || &Y != &K) return 4; }
  else if (Op == "postdec") { auto X = I--; auto Y = K--; RI = node(X); RK = node(Y); }
  else return 5;
  if (RI != RK || node(I) != node(K) || bool(I) != bool(K) || !(I == K) || I != K) return 6;
  It = node(I);
  // comparison with a node, null (the end of a chain) included
  const Node *KN = It;
  if (!(I == It) || I != It || !(K == KN) || K != KN || !(It == I) || It != K || (I == (It ? nullptr : RI ? RI : A)) != (!It && !RI && !A)) return 10;
  R = id(RI);
  I = static_cast<C *>(It);
  K = static_cast<const C *>(It);
  if (node(I) != It || node(K) != It) return 7;
  return 0;
}

template<class Tag> static void show(std::vector<Node> &Ns, Node *It, std::ostream &O) {
  using T = bcl::ChainTraits<Node, Tag>;
  using C = bcl::Chain<Node, Tag>;
  O << "{\"nx\":[";
  for (size_t K = 0; K < Ns.size(); ++K) {
    C *M = &Ns[K];
    const C *Q = M;
    O << (K ? "," : "") << (T::getNext(M) == T::getNext(Q) ? id(T::getNext(M)) : -2);
  }
  O << "],\"pv\":[";
  for (size_t K = 0; K < Ns.size(); ++K) {
    C *M = &Ns[K];
    const C *Q = M;
    O << (K ? "," : "") << (T::getPrev(M) == T::getPrev(Q) ? id(T::getPrev(M)) : -2);
  }
  int IN = 0, IP = 0;
  if (It) {
    bcl::ChainIterator<Node, Tag> I(static_cast<C *>(It));
    bcl::ChainIteratorC<Node, Tag> K(static_cast<const C *>(It));
    IN = I.getNext() == K.getNext() ? id(I.getNext()) : -3;
    IP = I.getPrev() == K.getPrev() ? id(I.getPrev()) : -3;
  }
  O << "],\"in\":" << IN << ",\"ip\":" << IP << "}";
}

int main(int Argc, char **Argv) {
  const int N = std::atoi(Argv[1]), NT = std::atoi(Argv[2]);
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::vector<Node> Ns(N);
    for (int K = 0; K < N; ++K) { Ns[K].Id = K + 1; Ns[K].Before = -(K + 1); Ns[K].After = (K + 1) * 7; }
    Node *It = nullptr;
    std::istringstream In(Line);
    std::string Op, Semi;
    int T, A, M;
    bool First = true;
    std::cout << "[";
    while (In >> Op >> T >> A >> M >> Semi) {
      int R = 0;
      Node *PA = A ? &Ns[A - 1] : nullptr, *PN = M ? &Ns[M - 1] : nullptr;
      int E = T == 1 ? apply<void>(Op, PA, PN, It, R) : apply<Other>(Op, PA, PN, It, R);
      if (E) { std::cerr << "iterator inconsistency " << E << " at " << Op << "\n"; return 3; }
      std::cout << (First ? "" : ",") << "{\"o\":{\"op\":\"" << Op << "\",\"t\":" << T << ",\"a\":" << A << ",\"n\":" << M
                << "},\"r\":" << R << ",\"it\":" << id(It) << ",\"c\":[";
      show<void>(Ns, It, std::cout);
      if (NT > 1) { std::cout << ","; show<Other>(Ns, It, std::cout); }
      std::cout << "]}";
      First = false;
    }
    std::cout << "]" << std::endl;
  }
}
