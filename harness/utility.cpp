// Calls of the functions of bcl/utility.h. A test is a line
// "f p1 p2 p3 | a.. | b..", answered by {"r": ..}; binary literals are in
// "literals.h".
#include <bcl/utility.h>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using L = std::vector<int>;
using bcl::operator "" _b;

static std::string list(const L &X) {
  std::string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + std::to_string(X[I]);
  return S + "]";
}
static const char *B(bool X) { return X ? "true" : "false"; }
static std::string text(const L &X) { return std::string(X.begin(), X.end()); }
static L codes(const std::string &S) {
  L R;
  for (unsigned char C : S) R.push_back(C);
  return R;
}
template<class T> L bytes(const T &X) {
  L R;
  for (std::size_t I = 0; I < sizeof(T); ++I) R.push_back(reinterpret_cast<const unsigned char *>(&X)[I]);
  return R;
}
template<class T> L bitsOf(T X) {
  L R;
  for (int I = sizeof(T) * 8 - 1; I >= 0; --I) R.push_back(int((static_cast<unsigned long long>(X) >> I) & 1));
  return R;
}
template<class F> void ofType(const std::string &T, F &&Fn) {
  if (T == "i8") Fn((signed char)0);
  else if (T == "u8") Fn((unsigned char)0);
  else if (T == "c") Fn(char(0));
  else if (T == "i16") Fn(short(0));
  else if (T == "u16") Fn((unsigned short)0);
  else if (T == "i32") Fn(int(0));
  else if (T == "u32") Fn(unsigned(0));
  else if (T == "i64") Fn((long long)0);
  else if (T == "u64") Fn((unsigned long long)0);
  else exit(3);
}
// Plain objects of sizes which are not sizes of numbers.
template<std::size_t N> struct Plain {
  unsigned char D[N];
  Plain() = default;
  Plain(unsigned long long X) { std::memset(D, int(X & 255), N); }
};
template<class F> void ofSize(std::size_t N, F &&Fn) {
  switch (N) {
  case 1: return Fn((unsigned char)0);
  case 2: return Fn((unsigned short)0);
  case 3: return Fn(Plain<3>(0));
  case 4: return Fn(unsigned(0));
  case 5: return Fn(Plain<5>(0));
  case 8: return Fn((unsigned long long)0);
  case 12: return Fn(Plain<12>(0));
  default: exit(3);
  }
}
template<class T> T fromBytes(const L &X) {
  T R(0);
  for (std::size_t I = 0; I < sizeof(T); ++I) reinterpret_cast<unsigned char *>(&R)[I] = (unsigned char)X[I];
  return R;
}

static int Live = 0;
struct Made {
  L R;
  Made(int A) : R{A} { ++Live; }
  Made(int A, std::unique_ptr<int> P) : R{A, P ? *P : -1} { ++Live; }
  Made(std::string &&S, const int &A, std::unique_ptr<int> P) : R{int(S.size()), A, P ? *P : -1} { std::string T(std::move(S)); ++Live; }
  Made() { ++Live; }
  ~Made() { --Live; }
};
struct NoCopy : bcl::Uncopyable { NoCopy() = default; NoCopy(NoCopy &&) = default; NoCopy &operator=(NoCopy &&) = default; };
struct NoAssign : bcl::Unassignable {
  NoAssign() = default;
  NoAssign(const NoAssign &) = default;
  NoAssign(NoAssign &&) = default;
  NoAssign &operator=(NoAssign &&) = default;
};
struct BareCopy : bcl::Uncopyable { int X; };
struct BareAssign : bcl::Unassignable { int X; };
template<class T> std::string abilities() {
  const bool R[] = {std::is_default_constructible<T>::value, std::is_destructible<T>::value, std::is_copy_constructible<T>::value,
    std::is_copy_assignable<T>::value, std::is_move_constructible<T>::value, std::is_move_assignable<T>::value};
  std::string S = "[";
  for (bool X : R) S += std::string(S.size() > 1 ? "," : "") + (X ? "true" : "false");
  return S + "]";
}
BASE_ATTR_DEF(AttrA, int)
BASE_ATTR_DEF(AttrB, int)
BASE_ATTR_DEF(AttrC, BCL_JOIN(std::map<int, int>))

struct Function {
  L &R;
  std::size_t Calls;
  const void *Self;
  Function(L &R) : R(R), Calls(0), Self(this) {}
  template<class T> void operator()(const T &X) {
    std::ostringstream S;
    S << X;
    if (Calls++ != R.size() || Self != this) R.push_back(-9);
    R.push_back(std::stoi(S.str()));
  }
};
struct Referring {
  std::vector<const void *> At;
  void insert(std::string &X) { At.push_back(&X); }
  void push_back(std::string &X) { At.push_back(&X); }
};
template<std::size_t N> struct Block { unsigned char D[N]; };
template<std::size_t N> void swapTest(const L &A, const L &C, std::ostream &O) {
  Block<N> X, Y;
  for (std::size_t I = 0; I < N; ++I) { X.D[I] = (unsigned char)A[I]; Y.D[I] = (unsigned char)C[I]; }
  Block<N> Z = X;
  bcl::swapMemory(Z, Z);
  bcl::swapMemory(X, Y);
  O << "\"r\":[" << list(bytes(X)) << "," << list(bytes(Y)) << "],\"self\":" << list(bytes(Z));
}
static void literal(int N, std::ostream &O);

int main() {
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::istringstream In(Line);
    std::string F, Tok;
    std::vector<std::string> P;
    L A, C;
    In >> F;
    int Part = 0;
    while (In >> Tok) {
      if (Tok == "|") ++Part;
      else if (Part == 0) P.push_back(Tok);
      else (Part == 1 ? A : C).push_back(std::stoi(Tok));
    }
    std::ostringstream O;
    O << "{";
    if (F == "quote") {
      const std::string S = text(A);
      std::string T = text(A);
      L R = codes(bcl::quote(S));
      O << "\"r\":" << list(R) << ",\"s\":" << list(codes(bcl::quote(std::move(T)))) << ",\"kept\":" << list(codes(S));
    } else if (F == "white") {
      O << "\"r\":[";
      for (int K = 0; K < 256; ++K) O << (K ? "," : "") << B(bcl::isWhitespace((unsigned char)K));
      O << "]";
    } else if (F == "digits") {
      ofType(P[0], [&](auto Zero) {
        using T = decltype(Zero);
        T V = 0, Base = T(std::stoi(P[1]));
        for (int D : A) V = P[2] == "1" ? T(V * Base - D) : T(V * Base + D);
        O << "\"n\":" << bcl::numberOfDigits<T>(V, Base) << ",\"z\":" << (V ? bcl::numberOfLessZeros<T>(V, Base) : 0);
      });
    } else if (F == "mask") {
      ofType(P[0], [&](auto Zero) { O << "\"r\":" << list(bitsOf(bcl::unitMask<decltype(Zero)>(std::stoi(P[1])))); });
    } else if (F == "bits") {
      ofType(P[0], [&](auto Zero) {
        using T = decltype(Zero);
        unsigned long long V = 0;
        for (int D : A) V = V * 2 + D;
        std::ostringstream S;
        bcl::bitPrint(static_cast<T>(V), S);
        L R;
        for (char X : S.str()) R.push_back(X == '0' ? 0 : X == '1' ? 1 : 9);
        O << "\"r\":" << list(R);
      });
    } else if (F == "literal") literal(std::stoi(P[0]), O);
    else if (F == "shrink") {
      ofSize(A.size(), [&](auto FZ) { ofSize(C.size(), [&](auto SZ) { ofSize(std::stoi(P[0]), [&](auto TZ) {
        using FT = decltype(FZ);
        using ST = decltype(SZ);
        using T = decltype(TZ);
        {
          const FT X = fromBytes<FT>(A);
          const ST Y = fromBytes<ST>(C);
          T R1 = T(0xAAAAAAAAAAAAAAAAull), R2 = T(0x5555555555555555ull);
          bool Ok1 = bcl::shrinkPair(X, Y, R1), Ok2 = bcl::shrinkPair(std::pair<FT, ST>(X, Y), R2);
          if (Ok1 && Ok2 && bytes(R1) != bytes(R2)) reinterpret_cast<unsigned char &>(R1) ^= 255;
          O << "\"ok\":" << B(Ok1) << ",\"ok2\":" << B(Ok2) << ",\"r\":" << list(bytes(R1)) << ",\"back\":[";
          if constexpr (sizeof(FT) >= sizeof(T) / 2 && sizeof(ST) >= sizeof(T) / 2) {
            FT X1 = FT(~0ull);
            ST Y1 = ST(~0ull);
            bcl::restoreShrinkedPair(R1, X1, Y1);
            O << list(bytes(X1)) << "," << list(bytes(Y1));
          }
          O << "]";
        }
      }); }); });
    } else if (F == "restore") {
      ofSize(A.size(), [&](auto TZ) { ofSize(std::stoi(P[1]), [&](auto FZ) { ofSize(std::stoi(P[2]), [&](auto SZ) {
        using T = decltype(TZ);
        using FT = decltype(FZ);
        using ST = decltype(SZ);
        if constexpr (sizeof(FT) >= sizeof(T) / 2 && sizeof(ST) >= sizeof(T) / 2) {
          FT X1 = FT(~0ull);
          ST Y1 = ST(~0ull);
          bcl::restoreShrinkedPair(fromBytes<T>(A), X1, Y1);
          O << "\"back\":[" << list(bytes(X1)) << "," << list(bytes(Y1)) << "]";
        }
      }); }); });
    } else if (F == "swap") {
      switch (A.size()) {
      case 1: swapTest<1>(A, C, O); break;
      case 2: swapTest<2>(A, C, O); break;
      case 3: swapTest<3>(A, C, O); break;
      case 5: swapTest<5>(A, C, O); break;
      case 7: swapTest<7>(A, C, O); break;
      case 8: swapTest<8>(A, C, O); break;
      case 12: swapTest<12>(A, C, O); break;
      case 15: swapTest<15>(A, C, O); break;
      case 16: swapTest<16>(A, C, O); break;
      case 30: swapTest<30>(A, C, O); break;
      case 41: swapTest<41>(A, C, O); break;
      case 100: swapTest<100>(A, C, O); break;
      default: exit(3);
      }
    } else if (F == "insert") {
      std::set<int> S;
      std::vector<int> V;
      std::set<int *> SP;
      std::vector<int *> VP;
      int N = 0;
      long NP = 0;
      std::map<int, std::unique_ptr<int>> Own;
      for (int X : A) {
        auto &U = Own[X];
        if (!U) U.reset(new int(X));
        bcl::SimpleInserter<int, std::set<int>>::insert(X, S);
        bcl::PushBackInserter<int, std::vector<int>>::insert(X, V);
        bcl::CountInserter<int, int>::insert(X, N);
        bcl::SimpleInserter<int *, std::set<int *>>::insert(U.get(), SP);
        bcl::PushBackInserter<int *, std::vector<int *>>::insert(U.get(), VP);
        bcl::CountInserter<int *, long>::insert(U.get(), NP);
      }
      std::set<int> S2;
      for (int *Q : SP) S2.insert(*Q);
      if (S2.size() != SP.size()) S2.insert(-1);
      // inserting leaves an element as it is; a collection may take elements by reference
      Referring Refs;
      std::set<std::string> TS;
      std::vector<std::string> TV;
      std::size_t TN = 0;
      for (int X : A) {
        const std::string Was(40, char('a' + X));
        std::string Text = Was;
        bcl::SimpleInserter<std::string, std::set<std::string>>::insert(Text, TS);
        bcl::PushBackInserter<std::string, std::vector<std::string>>::insert(Text, TV);
        bcl::CountInserter<std::string, std::size_t>::insert(Text, TN);
        bcl::SimpleInserter<std::string, Referring>::insert(Text, Refs);
        bcl::PushBackInserter<std::string, Referring>::insert(Text, Refs);
        if (Text != Was || !TS.count(Was) || TV.back() != Was || TN != TV.size() ||
            Refs.At != std::vector<const void *>{&Text, &Text}) V.push_back(-1);
        Refs.At.clear();
      }
      L VV;
      for (int *Q : VP) VV.push_back(*Q);
      O << "\"push\":" << list(V) << ",\"pushp\":" << list(VV) << ",\"set\":" << list(L(S.begin(), S.end()))
        << ",\"setp\":" << list(L(S2.begin(), S2.end())) << ",\"count\":" << N << ",\"countp\":" << NP;
    } else if (F == "each") {
      L R;
      // the function object itself is applied, not a copy of it
      Function Fn(R);
      {
        L Q;
        bcl::staticForeach(Function(Q), 1, "2", 3l);
        if (Q != L{1, 2, 3}) R.push_back(-8);
      }
      std::size_t Sz = 0;
      // values of several types
      switch (A.size()) {
      case 0: bcl::staticForeach(Fn); break;
      case 1: { int T[1]; bcl::staticForeach(Fn, A[0]); Sz = bcl::array_sizeof(T); break; }
      case 2: { long T[2]; bcl::staticForeach(Fn, std::to_string(A[0]), A[1]); Sz = bcl::array_sizeof(T); break; }
      case 3: { std::string T[3]; bcl::staticForeach(Fn, A[0], long(A[1]), std::to_string(A[2])); Sz = bcl::array_sizeof(T); break; }
      case 4: { char T[4]; bcl::staticForeach(Fn, std::to_string(A[0]), std::to_string(A[1]), A[2], short(A[3])); Sz = bcl::array_sizeof(T); break; }
      default: exit(3);
      }
      if (Fn.Calls != A.size()) R.push_back(-7);
      O << "\"r\":" << list(R) << ",\"sz\":" << Sz;
    } else if (F == "make") {
      L R, Q;
      {
        std::unique_ptr<Made> M, N;
        if (A.size() == 0) { M = bcl::make_unique<Made>(); N = bcl::make_unique_piecewise<Made>(std::make_tuple()); }
        else if (A.size() == 1) { M = bcl::make_unique<Made>(A[0]); N = bcl::make_unique_piecewise<Made>(std::make_tuple(A[0])); }
        else if (A.size() == 2) {
          M = bcl::make_unique<Made>(A[0], std::unique_ptr<int>(new int(A[1])));
          N = bcl::make_unique_piecewise<Made>(std::make_tuple(A[0], std::unique_ptr<int>(new int(A[1]))));
        } else {
          std::string S(A[0], 'x'), S2 = S;
          M = bcl::make_unique<Made>(std::move(S), A[1], std::unique_ptr<int>(new int(A[2])));
          if (!S.empty()) M->R.push_back(-1);
          N = bcl::make_unique_piecewise<Made>(std::tuple<std::string, const int &, std::unique_ptr<int>>(S2, A[1], std::unique_ptr<int>(new int(A[2]))));
        }
        R = M->R;
        Q = N->R;
        // values, not a list of them
        if (A.size() == 2 && (*bcl::make_unique<L>(A[0], A[1]) != L(A[0], A[1]) ||
            *bcl::make_unique_piecewise<L>(std::make_tuple(A[0], A[1])) != L(A[0], A[1]))) R.push_back(-2);
      }
      O << "\"r\":" << list(R) << ",\"p\":" << list(Q) << ",\"live\":" << Live;
    } else if (F == "array") {
      int N = std::stoi(P[0]);
      { std::unique_ptr<int[]> Dirty(new int[N + 1]); for (int K = 0; K <= N; ++K) Dirty[K] = 77; }
      auto U = bcl::make_unique<int[]>(N);
      O << "\"r\":" << list(L(U.get(), U.get() + N));
    } else if (F == "static") {
      int T1[1]; char T2[2]; std::string T3[7]; double T4[100];
      constexpr auto S1 = bcl::array_sizeof("");
      O << "\"sizes\":" << list({int(S1), int(bcl::array_sizeof(T2)), int(bcl::array_sizeof(T3)), int(bcl::array_sizeof(T4))})
        << ",\"uncopyable\":[" << B(std::is_copy_constructible<NoCopy>::value) << "," << B(std::is_copy_assignable<NoCopy>::value) << ","
        << B(std::is_move_constructible<NoCopy>::value) << "," << B(std::is_move_assignable<NoCopy>::value) << "],\"unassignable\":["
        << B(std::is_copy_constructible<NoAssign>::value) << "," << B(std::is_copy_assignable<NoAssign>::value) << ","
        << B(std::is_move_constructible<NoAssign>::value) << "," << B(std::is_move_assignable<NoAssign>::value) << "]"
        << ",\"can\":[" << abilities<BareCopy>() << "," << abilities<BareAssign>() << "," << abilities<bcl::Uncopyable>() << ","
        << abilities<bcl::Unassignable>() << "]";
      std::map<bcl::AttributeId, int> Ids;
      auto id = [&](bcl::AttributeId X) { return Ids.insert({X, int(Ids.size())}).first->second; };
      L I1{id(AttrA::id()), id(AttrB::id()), id(AttrC::id())};
      L I2{id(AttrA::id()), id(AttrB::id()), id(AttrC::id())};
      (void)T1;
      AttrC::Value M{{1, 2}};
      if (M[1] != 2) I2[0] = -1;
      constexpr auto D = bcl::numberOfDigits(100, 10);
      constexpr auto Z = bcl::numberOfLessZeros(100, 10);
      constexpr auto K = bcl::unitMask<unsigned char>(4);
      constexpr auto W = 10101_b;
      O << ",\"ids\":" << list(I1) << ",\"again\":" << list(I2) << ",\"ctimes\":" << list({int(D), int(Z), int(K), int(W)});
    } else exit(4);
    O << "}";
    std::cout << O.str() << std::endl;
  }
}
#include "literals.h"
