// Operations on pools of values with known pointers ("pool") and on iterators
// with attached data ("itr"). A test: "op i j v ; ..."; pool takes the type of
// values (own, int), itr the kind of a sequence, its length and the number of
// iterators.
#include <utility>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/IteratorDataAdaptor.h>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static int Live = 0;
// A value that can only be moved and shows that it has been moved from.
struct Own {
  std::unique_ptr<int> P;
  std::string S;
  Own(int V, std::string T, std::unique_ptr<int>) : P(new int(V)), S(std::move(T)) { ++Live; }
  Own(Own &&F) : P(std::move(F.P)), S(std::move(F.S)) { ++Live; }
  Own &operator=(Own &&F) { P = std::move(F.P); S = std::move(F.S); return *this; }
  ~Own() { --Live; }
  int get() const { return P ? *P : -7; }
  void set(int V) { *P = V; }
};
struct Int {
  int N;
  Int(int V) : N(V) { ++Live; }
  Int(Int &&F) : N(F.N) { F.N = -7; ++Live; }
  Int(const Int &F) : N(F.N) { ++Live; }
  Int &operator=(Int &&F) { N = F.N; if (&F != this) F.N = -7; return *this; }
  ~Int() { --Live; }
  int get() const { return N; }
  void set(int V) { N = V; }
};

template<class T> struct Pools {
  using W = bcl::ValuePtrWrapper<T>;
  std::deque<T *> Ptr;
  std::vector<W> A, B;
  std::vector<bool> Gone;

  void put(int I, int V) {
    Ptr.push_back(nullptr);
    Gone.push_back(false);
    auto At = A.begin() + (I - 1);
    if constexpr (std::is_same<T, Own>::value) {
      if (At == A.end()) A.emplace_back(Ptr.back(), V, std::string(40, 'x'), std::unique_ptr<int>());
      else A.emplace(At, Ptr.back(), V, std::string("y"), std::make_unique<int>(1));
    } else if (At == A.end()) A.emplace_back(Ptr.back(), T(V));
    else A.emplace(At, Ptr.back(), V);
  }
  int who(W &X) {
    T &R = X;
    for (std::size_t I = 0; I < Ptr.size(); ++I) if (!Gone[I] && Ptr[I] == std::addressof(R)) return int(I);
    return -1;
  }
  void forget(W &X) { int I = who(X); if (I >= 0) { Gone[I] = true; } }
  void bury() { for (std::size_t I = 0; I < Ptr.size(); ++I) if (Gone[I]) Ptr[I] = nullptr; }
  void apply(const std::string &Op, int I, int J, int V) {
    auto At = [&](int K) { return A.begin() + (K - 1); };
    if (Op == "emplace") put(I, V);
    else if (Op == "erase") { for (int K = I; K <= J; ++K) forget(A[K - 1]); A.erase(At(I), At(J + 1)); bury(); }
    else if (Op == "swap") std::swap(*At(I), *At(J));
    else if (Op == "reverse") std::reverse(A.begin(), A.end());
    else if (Op == "rotate") std::rotate(A.begin(), At(I), A.end());
    else if (Op == "sort") std::stable_sort(A.begin(), A.end(), [](const W &X, const W &Y) {
      return static_cast<const T &>(X).get() < static_cast<const T &>(Y).get(); });
    else if (Op == "over") {
      forget(A[I - 1]);
      *At(I) = std::move(*At(J));
      A.erase(At(J));
      bury();
    } else if (Op == "carry") { B.push_back(std::move(*At(I))); A.erase(At(I)); }
    else if (Op == "set") {
      switch (V % 3) {
      case 0: (*A[I - 1]).set(V); break;
      case 1: A[I - 1]->set(V); break;
      default: static_cast<T &>(A[I - 1]).set(V);
      }
    } else if (Op == "setp") { int K = who(A[I - 1]); if (K >= 0) Ptr[K]->set(V); }
    else if (Op == "room") { A.reserve(A.capacity() + 1); B.shrink_to_fit(); }
    else if (Op == "trade") std::swap(A, B);
    else exit(3);
  }
  std::string show(std::vector<W> &X) {
    std::string S = "[";
    for (auto &E : X) {
      T &R = E;
      const W &CE = E;
      const T &CR = CE;
      T *P = &E;
      S += (S.size() > 1 ? ",[[" : "[[");
      bool First = true;
      int Val = R.get();
      if (P != std::addressof(R) || std::addressof(CR) != P || std::addressof(*E) != P || E.operator->() != P) Val = -9;
      for (std::size_t I = 0; I < Ptr.size(); ++I)
        if (!Gone[I] && Ptr[I] == P) { S += (First ? "" : ",") + std::to_string(I + 1); First = false; if (Ptr[I]->get() != Val) Val = -9; }
      S += "]," + std::to_string(Val) + "]";
    }
    return S + "]";
  }
  std::string state() {
    std::string S = "\"a\":" + show(A) + ",\"b\":" + show(B) + ",\"stale\":[";
    const char *Sep = "";
    for (std::size_t I = 0; I < Ptr.size(); ++I) if (Gone[I] && Ptr[I]) { S += Sep + std::to_string(I + 1); Sep = ","; }
    return S + "],\"live\":" + std::to_string(Live);
  }
};

struct Ref {
  int &E;
  std::string D;
  Ref(int &X, const std::string &Y) : E(X), D(Y) {}
};
template<class C> struct Cursors {
  using It = typename C::iterator;
  using X = bcl::IteratorDataAdaptor<It, std::string, Ref>;
  C El;
  std::vector<X> S;
  Cursors(int N, int K) : El(N, 0), S(K, X(El.begin(), text(0))) {}
  // Texts long enough to live in the heap.
  static std::string text(int D) { return D ? std::string(30, 'd') + std::to_string(D) : ""; }
  static int number(const std::string &T) { return T.empty() ? 0 : T.size() > 30 ? std::stoi(T.substr(30)) : -9; }
  It at(int P) { return std::next(El.begin(), P - 1); }
  int pos(const It &I) { return int(std::distance(El.begin(), I)) + 1; }
  void apply(const std::string &Op, int I, int J, int V) {
    X &A = S[I - 1];
    if (Op == "pre") {
      X &R = ++A;
      if (&R != &A) exit(3);
      if (I != J) S[J - 1] = R;
    } else if (Op == "post") { X R = A++; S[J - 1] = R; }
    else if (Op == "copy") { S[J - 1] = S[I - 1]; }
    else if (Op == "make") A = X(at(V), text(J));
    else if (Op == "data") A.getData() = text(V);
    else if (Op == "itr") A.getIterator() = at(V);
    else if (Op == "put") (*A).E = V;
    else exit(3);
  }
  std::string state() {
    std::string R = "\"n\":" + std::to_string(std::distance(El.begin(), El.end())) + ",\"nx\":" + std::to_string(S.size()) + ",\"x\":[";
    for (auto &A : S) {
      const X &CA = A;
      int P = pos(A.getIterator()), D = number(A.getData());
      if (CA.getIterator() != A.getIterator() || &CA.getData() != &A.getData()) P = -9;
      R += (&A != &S[0] ? ",[" : "[") + std::to_string(P) + "," + std::to_string(D) + ",";
      if (A.getIterator() == El.end()) R += "[]]";
      else { Ref V = *CA; R += "[" + std::to_string(V.E) + "," + std::to_string(number(V.D)) + "]]"; if (&V.E != &*A.getIterator()) R += "!"; }
    }
    std::string Eq = "[", Walk = "[";
    for (auto &A : S) {
      Eq += Eq.size() > 1 ? ",[" : "[";
      Walk += Walk.size() > 1 ? ",[" : "[";
      for (auto &B : S) {
        bool E = A == B, N = A != B;
        Eq += &B != &S[0] ? "," : "";
        Eq += E == N ? "9" : E ? "true" : "false";
        Walk += &B != &S[0] ? ",[" : "[";
        if (A.getData() == B.getData() && pos(A.getIterator()) <= pos(B.getIterator())) {
          // An algorithm and a loop.
          std::string L, M;
          std::for_each(A, B, [&](const Ref &V) { L += (L.empty() ? "[" : ",[") + std::to_string(V.E) + "," + std::to_string(number(V.D)) + "]"; });
          for (X I = A; I != B; I++) M += (M.empty() ? "[" : ",[") + std::to_string((*I).E) + "," + std::to_string(number((*I).D)) + "]";
          Walk += L;
          if (L != M) Walk += "!";
        }
        Walk += "]";
      }
      Eq += "]";
      Walk += "]";
    }
    return R + "],\"eq\":" + Eq + "],\"walk\":" + Walk + "]";
  }
};

template<class Make> static int run(Make &&M) {
  std::string Line;
  while (std::getline(std::cin, Line)) {
    {
      auto P = M();
      std::istringstream In(Line);
      std::string Op, End;
      int I, J, V;
      const char *Sep = "[";
      while (In >> Op >> I >> J >> V >> End) {
        P->apply(Op, I, J, V);
        std::cout << Sep << "{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"v\":" << V << "}," << P->state() << "}";
        Sep = ",";
      }
    }
    std::cout << "]" << std::endl;
    if (Live) { std::cerr << "terminate called: " << Live << " values are alive" << std::endl; return 4; }
  }
  return 0;
}
int main(int C, char **V) {
  std::string K = V[1], T = V[2];
  if (K == "pool") return T == "own" ? run([] { return std::make_unique<Pools<Own>>(); }) : run([] { return std::make_unique<Pools<Int>>(); });
  int N = std::stoi(V[3]), X = std::stoi(V[4]);
  if (T == "list") return run([=] { return std::make_unique<Cursors<std::list<int>>>(N, X); });
  if (T == "forward") return run([=] { return std::make_unique<Cursors<std::forward_list<int>>>(N, X); });
  return run([=] { return std::make_unique<Cursors<std::vector<int>>>(N, X); });
}
