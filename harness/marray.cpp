// Operations on multidimensional arrays. Arguments: kind (m: marray, f: marray_f),
// rank, number of slots. A test: "op i j v x.. ; ..."
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static int Live = 0;
struct Cell {
  int V = 0;
  Cell() { ++Live; }
  Cell(const Cell &) = delete;
  ~Cell() { --Live; }
};
using Idx = std::vector<int>;

template<std::size_t R> struct M {
  using A = bcl::marray<Cell, R>;
  template<std::size_t K, class S> static Cell &at(S &&X, const Idx &I) {
    if constexpr (K + 1 == R) return X[I[K]];
    else return at<K + 1>(X[I[K]], I);
  }
  static Cell &at(A &X, const Idx &I) { return at<0>(X, I); }
  // The last dimension through a constant subarray.
  template<std::size_t K, class S> static const Cell &cat(S &&X, const Idx &I) {
    if constexpr (K + 2 == R) { const auto Last = X[I[K]]; return Last[I[K + 1]]; }
    else return cat<K + 1>(X[I[K]], I);
  }
  static const Cell &cat(A &X, const Idx &I) { return cat<0>(X, I); }
  // All elements with the first index, through one subarray object.
  static void row(A &X, int F, const std::vector<Idx> &Is, int V) {
    auto Sub = X[F];
    for (auto &I : Is) if (I[0] == F) at<1>(Sub, I).V = V + I.back();
  }
};
template<std::size_t R> struct F {
  using A = bcl::marray_f<Cell, R>;
  template<class X, std::size_t... Ks> static auto &get(X &Arr, const Idx &I, std::index_sequence<Ks...>) {
    return Arr(I[Ks]...);
  }
  static Cell &at(A &X, const Idx &I) { return get(X, I, std::make_index_sequence<R>()); }
  static const Cell &cat(const A &X, const Idx &I) { return get(X, I, std::make_index_sequence<R>()); }
  static void row(A &X, int First, const std::vector<Idx> &Is, int V) {
    for (auto &I : Is) if (I[0] == First) at(X, I).V = V + I.back();
  }
};

static std::string list(const Idx &X) {
  std::string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + std::to_string(X[I]);
  return S + "]";
}
static std::vector<Idx> all(const Idx &Dims) {
  std::vector<Idx> R{{}};
  for (int D : Dims) {
    std::vector<Idx> N;
    for (auto &I : R) for (int K = 0; K < D; ++K) { N.push_back(I); N.back().push_back(K); }
    R = N;
  }
  return R;
}

template<class T, std::size_t R> static int run(int NS) {
  using A = typename T::A;
  std::string Line;
  while (std::getline(std::cin, Line)) {
    {
      std::vector<std::unique_ptr<A>> S(NS);
      std::vector<Idx> Dims(NS);
      std::istringstream In(Line);
      std::string Op, Tok;
      const char *Sep = "[";
      while (In >> Op) {
        int I, J, V;
        Idx X;
        In >> I >> J >> V;
        while (In >> Tok && Tok != ";") X.push_back(std::stoi(Tok));
        auto &P = S[I - 1];
        std::array<std::size_t, R> D{};
        for (std::size_t K = 0; K < R && K < X.size(); ++K) D[K] = X[K];
        if (Op == "new") {
          if (V % 2) P.reset(new A(D)); else P.reset(new A(std::array<std::size_t, R>(D)));
          Dims[I - 1] = X;
        } else if (Op == "renew") {
          if (P) { A &Ref = (*P = A(D)); if (&Ref != P.get()) return 5; } else P.reset(new A(A(D)));
          Dims[I - 1] = X;
        } else if (Op == "set") T::at(*P, X).V = V;
        else if (Op == "row") T::row(*P, X[0], all(Dims[I - 1]), V);
        else if (Op == "destroy") { P.reset(); Dims[I - 1].clear(); }
        else if (Op == "move") {
          auto &Q = S[J - 1];
          if (!Q) { if (I != J) { P.reset(); Dims[I - 1].clear(); } }
          else if (!P) { P.reset(new A(std::array<std::size_t, R>{})); *P = std::move(*Q); }
          else *P = std::move(*Q);
          if (I != J) { Dims[I - 1] = Dims[J - 1]; Dims[J - 1].clear(); }
        } else if (Op == "ctor") {
          auto &Q = S[J - 1];
          if (Q) P.reset(new A(std::move(*Q))); else P.reset();
          Dims[I - 1] = Dims[J - 1]; Dims[J - 1].clear();
        } else return 3;
        std::cout << Sep << "{\"ns\":" << NS << ",\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"v\":" << V
          << ",\"x\":" << list(X) << "},\"live\":" << Live << ",\"s\":[";
        Sep = ",";
        for (int K = 0; K < NS; ++K) {
          std::cout << (K ? ",[" : "[");
          if (S[K] && !Dims[K].empty()) {
            const char *C = "";
            for (auto &Ix : all(Dims[K])) {
              Cell &E = T::at(*S[K], Ix);
              int Val = &E == &T::cat(*S[K], Ix) ? E.V : -1;
              std::cout << C << "[" << list(Ix) << "," << Val << "]";
              C = ",";
            }
          }
          std::cout << "]";
        }
        std::cout << "]}";
      }
    }
    std::cout << "]" << std::endl;
    if (Live) { std::cerr << "elements left after destruction: " << Live << "\n"; return 4; }
  }
  return 0;
}
// Large arrays of characters, of which only some elements are used. A test:
// "dims.. ; x.. v ; x.. v ; ...", all v are written, then all are read.
template<class A, std::size_t R> static void large(const std::vector<std::vector<long>> &Rows) {
  using L = std::vector<std::vector<long>>;
  auto at = [](auto &X, const std::vector<long> &I) -> char & {
    if constexpr (std::is_same<A, bcl::marray_f<char, R>>::value) {
      std::array<std::size_t, R> Ix;
      for (std::size_t K = 0; K < R; ++K) Ix[K] = I[K];
      return std::apply([&](auto... Ks) -> char & { return X(Ks...); }, Ix);
    } else {
      auto Sub = [&](auto &Self, auto &&Y, auto K) -> char & {
        if constexpr (K() + 1 == R) return Y[I[K()]];
        else return Self(Self, Y[I[K()]], std::integral_constant<std::size_t, K() + 1>());
      };
      return Sub(Sub, X, std::integral_constant<std::size_t, 0>());
    }
  };
  std::array<std::size_t, R> D;
  for (std::size_t K = 0; K < R; ++K) D[K] = Rows[0][K];
  L Read;
  try {
    A X(D);
    for (std::size_t N = 1; N < Rows.size(); ++N) at(X, Rows[N]) = char(Rows[N].back());
    A Y(std::move(X));
    for (std::size_t N = 1; N < Rows.size(); ++N) {
      Read.push_back(Rows[N]);
      Read.back().back() = at(Y, Rows[N]);
    }
  } catch (std::bad_alloc &) {}
  auto show = [](const std::vector<long> &X, std::size_t E) {
    std::string S = "[";
    for (std::size_t K = 0; K < E; ++K) S += (K ? "," : "") + std::to_string(X[K]);
    return S + "]";
  };
  auto list = [&](auto B, auto E) {
    std::string S = "[";
    for (auto I = B; I != E; ++I) S += (I == B ? "[" : ",[") + show(*I, R) + "," + std::to_string(I->back()) + "]";
    return S + "]";
  };
  std::cout << "[{\"ns\":0,\"o\":{\"op\":\"large\",\"x\":" << show(Rows[0], R) << ",\"w\":" << list(Rows.begin() + 1, Rows.end())
    << "},\"r\":" << list(Read.begin(), Read.end()) << "}]" << std::endl;
}
static int large(bool Fun) {
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::vector<std::vector<long>> Rows(1);
    std::istringstream In(Line);
    std::string Tok;
    while (In >> Tok) if (Tok == ";") Rows.emplace_back(); else Rows.back().push_back(std::stol(Tok));
    Rows.pop_back();
    switch (Rows[0].size()) {
#define CASE(R) case R: Fun ? large<bcl::marray_f<char, R>, R>(Rows) : large<bcl::marray<char, R>, R>(Rows); break;
    CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7)
    }
  }
  return 0;
}
int main(int, char **Argv) {
  if (*Argv[2] == 'L') return large(*Argv[1] == 'f');
  int R = std::atoi(Argv[2]), NS = std::atoi(Argv[3]);
  if (*Argv[1] == 'm') {
    if (R == 2) return run<M<2>, 2>(NS);
    if (R == 3) return run<M<3>, 3>(NS);
    if (R == 4) return run<M<4>, 4>(NS);
    return run<M<5>, 5>(NS);
  }
  if (R == 2) return run<F<2>, 2>(NS);
  if (R == 3) return run<F<3>, 3>(NS);
  if (R == 4) return run<F<4>, 4>(NS);
  return run<F<5>, 5>(NS);
}
