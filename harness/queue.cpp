// Executes operation sequences on bcl::TransparentQueue and reports what is
// observable after each of them. Input: one test per line,
//   op i j v f ; op i j v f ; ...
// f > 0: the f-th allocation inside the operation fails.
// Output: one JSON array of events per line.
#include <bcl/transparent_queue.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

static long Allocs = 0, FailAt = 0;
void *operator new(size_t N) {
  if (++Allocs == FailAt) { FailAt = 0; throw std::bad_alloc(); }
  if (void *P = std::malloc(N ? N : 1)) return P;
  throw std::bad_alloc();
}
void operator delete(void *P) noexcept { std::free(P); }
void operator delete(void *P, size_t) noexcept { std::free(P); }

using Q = bcl::TransparentQueue<int>;
static int Pool[8];
static int *ptr(int V) { return V ? &Pool[V] : nullptr; }
static int name(int *P) {
  if (!P) return 0;
  if (P > Pool && P < Pool + 8) return int(P - Pool);
  return -1;
}
static const char *B(bool X) { return X ? "true" : "false"; }

static void proj(Q &X, std::ostream &O) {
  const Q &C = X;
  O << "{\"els\":[";
  Q Tmp(C);
  size_t N = 0;
  for (; !Tmp.empty() && N < 4096; ++N) O << (N ? "," : "") << name(Tmp.pop());
  O << "],\"size\":" << C.size() << ",\"empty\":" << B(C.empty());
  if (C.empty()) O << ",\"front\":0,\"back\":0}";
  else {
    int F = name(C.front()), L = name(C.back());
    if (X.front() != C.front()) F = -2;
    if (X.back() != C.back()) L = -2;
    O << ",\"front\":" << F << ",\"back\":" << L << "}";
  }
}

// A queue in storage of its own, so that only its own allocations are counted.
struct Slot {
  alignas(Q) unsigned char Raw[sizeof(Q)];
  Q *P = nullptr;
  template<class... A> void make(A &&...X) {
    drop();
    P = new (Raw) Q(std::forward<A>(X)...);  // null still if this throws
  }
  void drop() { if (P) P->~Q(); P = nullptr; }
  Q &operator*() { return *P; }
  ~Slot() { drop(); }
};

int main(int Argc, char **Argv) {
  const int N = std::atoi(Argv[1]);
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::vector<Slot> S(N + 1);
    for (int I = 0; I <= N; ++I) S[I].make();
    std::istringstream In(Line);
    std::string Op, Semi;
    int I, J, V, F;
    bool First = true;
    std::cout << "[";
    while (In >> Op >> I >> J >> V >> F >> Semi) {
      int Res = 0;
      bool Cmp[6] = {}, IsCmp = Op == "cmp", Threw = false;
      Q &X = *S[I];
      long Before = Allocs;
      FailAt = F ? Allocs + F : 0;
      try {
      if (Op == "push") X.push(ptr(V));
      else if (Op == "emplace") X.emplace(ptr(V));
      else if (Op == "emplace0") X.emplace();
      else if (Op == "pushfront") { if (!S[J].P->empty()) X.push(S[J].P->front()); }
      else if (Op == "emplfront") { if (!S[J].P->empty()) X.emplace(S[J].P->front()); }
      else if (Op == "emplback") { if (!S[J].P->empty()) X.emplace(S[J].P->back()); }
      else if (Op == "pop") Res = name(X.pop());
      else if (Op == "setfront") { if (!X.empty()) X.front() = ptr(V); }
      else if (Op == "setback") { if (!X.empty()) X.back() = ptr(V); }
      else if (Op == "new") S[I].make();
      else if (Op == "new1") S[I].make(ptr(V));
      else if (Op == "copyctor") S[I].make(static_cast<const Q &>(*S[J]));
      else if (Op == "movector") S[I].make(std::move(*S[J]));
      else if (Op == "copyassign") { Q &R = (X = static_cast<const Q &>(*S[J])); if (&R != &X) Res = -7; }
      else if (Op == "moveassign") { Q &R = (X = std::move(*S[J])); if (&R != &X) Res = -7; }
      else if (Op == "swap") X.swap(*S[J]);
      else if (Op == "fswap") swap(X, *S[J]);
      else if (IsCmp) {
        const Q &L = X, &R = *S[J];
        Cmp[0] = L == R; Cmp[1] = L != R; Cmp[2] = L < R; Cmp[3] = L > R; Cmp[4] = L <= R; Cmp[5] = L >= R;
      } else return 3;
      } catch (std::bad_alloc &) {
        Threw = true;
        Res = 0;
        if (!S[I].P) S[I].make();
      }
      FailAt = 0;
      long Alloc = Allocs - Before;
      std::cout << (First ? "" : ",") << "{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I
                << ",\"j\":" << J << ",\"v\":" << V << "},\"res\":" << Res << ",\"alloc\":" << Alloc << ",\"f\":" << F << ",\"threw\":" << B(Threw) << ",\"cmp\":[";
      static const char *Names[] = {"eq", "ne", "lt", "gt", "le", "ge"};
      if (IsCmp && !Threw)
        for (int K = 0; K < 6; ++K) std::cout << (K ? ",\"" : "{\"") << Names[K] << "\":" << B(Cmp[K]) << (K == 5 ? "}" : "");
      std::cout << "],\"obs\":[";
      for (int K = 1; K <= N; ++K) {
        if (K > 1) std::cout << ",";
        proj(*S[K], std::cout);
      }
      std::cout << "]}";
      First = false;
    }
    std::cout << "]" << std::endl;
  }
}
