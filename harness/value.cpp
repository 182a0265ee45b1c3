// Legacy values: histories of operations on weak and strong values of a type, and
// the logic of types (logic.h, generated).
// Arguments: type, weak values, strong values, plain values. Input per line:
// "op i j v ; ...".
#include <bcl/cell.h>
#include <bcl/legacy/cell_legacy.h>
#include <bcl/legacy/value.h>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
using Utility::Value;
using Utility::Null;
using Utility::True;
using Utility::False;
struct Pt { // comparable, nothing else
  int X = 0;
  friend bool operator==(const Pt &A, const Pt &B) { return A.X == B.X; }
  friend bool operator!=(const Pt &A, const Pt &B) { return A.X != B.X; }
  friend bool operator<(const Pt &A, const Pt &B) { return A.X < B.X; }
  friend bool operator<=(const Pt &A, const Pt &B) { return A.X <= B.X; }
  friend bool operator>(const Pt &A, const Pt &B) { return A.X > B.X; }
  friend bool operator>=(const Pt &A, const Pt &B) { return A.X >= B.X; }
  friend std::ostream &operator<<(std::ostream &O, const Pt &A) { return O << "pt" << A.X; }
};
struct Fail {};
static bool Failing = false;
struct Bomb { // its copying may fail
  int X = 0;
  Bomb() = default;
  explicit Bomb(int V) : X(V) {}
  Bomb(const Bomb &O) { if (Failing) throw Fail(); X = O.X; }
  Bomb &operator=(const Bomb &O) { if (Failing) throw Fail(); X = O.X; return *this; }
  friend bool operator==(const Bomb &A, const Bomb &B) { return A.X == B.X; }
  friend bool operator!=(const Bomb &A, const Bomb &B) { return A.X != B.X; }
  friend bool operator<(const Bomb &A, const Bomb &B) { return A.X < B.X; }
  friend bool operator<=(const Bomb &A, const Bomb &B) { return A.X <= B.X; }
  friend bool operator>(const Bomb &A, const Bomb &B) { return A.X > B.X; }
  friend bool operator>=(const Bomb &A, const Bomb &B) { return A.X >= B.X; }
  friend std::ostream &operator<<(std::ostream &O, const Bomb &A) { return O << "bomb" << A.X; }
};
static int Array[9];
template<class T> T val(int V);
template<> int val<int>(int V) { return (V - 3) * 900000000; }
template<> double val<double>(int V) { return V / 4.0 - 0.75; }
template<> std::string val<std::string>(int V) { return V == 1 ? "" : V == 2 ? std::string(1, '\0') : V == 3 ? "c" : std::string(V * 10, 'd'); }
template<class T> constexpr bool Text = std::is_same<T, std::string>::value;
static bool plain(const std::string &X) { return X.find('\0') == X.npos; }
template<> Pt val<Pt>(int V) { Pt P; P.X = V; return P; }
template<> Bomb val<Bomb>(int V) { return Bomb(V); }
template<> int *val<int *>(int V) { return Array + V; }
template<> bool val<bool>(int V) { return V == 2; }
template<class T> int code(const T &X, int NV) {
  for (int V = 1; V <= NV; ++V) if (val<T>(V) == X) return V;
  return 99;
}
template<class A, class B> int compare(const A &X, const B &Y) {
  return (X == Y ? 1 : 0) + (X != Y ? 2 : 0) + (X < Y ? 4 : 0) + (X <= Y ? 8 : 0) + (X > Y ? 16 : 0) + (X >= Y ? 32 : 0);
}
template<class A> std::string undefined(A &X) {
  const A &C = X;
  int L = (X == undef ? 1 : 0) + (X != undef ? 2 : 0), R = (undef == X ? 1 : 0) + (undef != X ? 2 : 0);
  if (((C == undef ? 1 : 0) + (C != undef ? 2 : 0)) != L) L = 9;
  return "[" + std::to_string(L) + "," + std::to_string(R) + "]";
}
template<class F> std::string row(int N, F &&Fn) {
  std::string S = "[";
  for (int I = 0; I < N; ++I) S += (I ? "," : "") + Fn(I);
  return S + "]";
}
using std::to_string;

template<class T> using W = Value<T, True>;
// There are no strong pointers.
template<class T> struct Strong {
  using S = Value<T, False>;
  static constexpr bool Is = true;
};
template<class T> struct Strong<T *> {
  using S = W<T *>;
  static constexpr bool Is = false;
};
template<class T> int run(int NW, int NS, int NV) {
  using S = typename Strong<T>::S;
  constexpr bool Is = Strong<T>::Is;
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::istringstream In(Line);
    std::vector<std::unique_ptr<W<T>>> Ws;
    std::vector<std::unique_ptr<S>> Ss;
    for (int I = 0; I < NW; ++I) Ws.emplace_back(new W<T>());
    for (int I = 0; I < NS; ++I) { Ss.emplace_back(new S()); *Ss.back() = val<T>(1); }
    std::string Op, End, Out;
    int I, J, V;
    while (In >> Op >> I >> J >> V >> End) {
      bool Thrown = false, Fails = Op[0] == 'x';
      if (Fails) Op.erase(0, 1);
      auto *A = Op[0] == 's' || Op.substr(0, 3) == "tos" ? nullptr : &Ws[I - 1];
      auto *B = A ? nullptr : &Ss[I - 1];
      if (Fails) {
        // copying the value fails
        if constexpr (std::is_same<T, Bomb>::value) {
          const Bomb X = val<T>(V ? V : 1);
          Failing = true;
          try {
            if (Op == "wval") A->reset(new W<T>(X));
            else if (Op == "wcopy") A->reset(new W<T>(*Ws[J - 1]));
            else if (Op == "towv") **A = X;
            else if (Op == "toww") **A = *Ws[J - 1];
            else if (Op == "wstrong") A->reset(new W<T>(*Ss[J - 1]));
            else if (Op == "tows") **A = *Ss[J - 1];
            else if (Op == "snew") B->reset(new S(X));
            else if (Op == "scopyw") B->reset(new S(*Ws[J - 1]));
            else if (Op == "scopys") B->reset(new S(*Ss[J - 1]));
            else if (Op == "tosv") **B = X;
            else if (Op == "tosw") **B = *Ws[J - 1];
            else if (Op == "toss") **B = *Ss[J - 1];
            else return 3;
          } catch (Fail &) { Thrown = true; }
          Failing = false;
        } else return 3;
      }
      else if (Op == "wnew") A->reset(new W<T>());
      else if (Op == "wnull") A->reset(new W<T>(undef));
      else if (Op == "wval") {
        A->reset(new W<T>(val<T>(V)));
        if constexpr (Text<T>) if (V % 2 && plain(val<T>(V))) A->reset(new W<T>(val<T>(V).c_str()));
      }
      else if (Op == "wcopy") A->reset(new W<T>(*Ws[J - 1]));
      else if (Op == "tow0") { if (&(**A = undef) != A->get()) return 5; }
      else if (Op == "towv") {
        if constexpr (Text<T>) {
          // a character and a C string are texts, too
          const std::string X = val<T>(V);
          if (X.size() == 1 && (V + I + Ws.size()) % 4) { if (&(**A = X[0]) != A->get()) return 5; }
          else if (I % 2 && plain(X)) { if (&(**A = X.c_str()) != A->get()) return 5; }
          else if (&(**A = X) != A->get()) return 5;
        } else if (&(**A = val<T>(V)) != A->get()) return 5;
      } else if (Op == "toww") { if (&(**A = *Ws[J - 1]) != A->get()) return 5; }
      else if (Op == "put") static_cast<T &>(**A) = val<T>(V);
      else if constexpr (Is) {
        try {
          if (Op == "wstrong") A->reset(new W<T>(*Ss[J - 1]));
          else if (Op == "tows") { if (&(**A = *Ss[J - 1]) != A->get()) return 5; }
          else if (Op == "snew") {
            B->reset(new S(val<T>(V)));
            if constexpr (Text<T>) if (V % 2 && plain(val<T>(V))) B->reset(new S(val<T>(V).c_str()));
          }
          else if (Op == "scopyw") B->reset(new S(*Ws[J - 1]));
          else if (Op == "scopys") B->reset(new S(*Ss[J - 1]));
          else if (Op == "tosv") {
            if constexpr (Text<T>) {
              std::string X = val<T>(V);
              if (V % 3 == 0 && plain(X)) { if (&(**B = X.c_str()) != B->get()) return 5; }
              else if (V % 3 == 1 && plain(X)) { if (&(**B = &X[0]) != B->get()) return 5; }
              else if (&(**B = X) != B->get()) return 5;
            } else if (&(**B = val<T>(V)) != B->get()) return 5;
          }
          else if (Op == "tosw") { if (&(**B = *Ws[J - 1]) != B->get()) return 5; }
          else if (Op == "toss") { if (&(**B = *Ss[J - 1]) != B->get()) return 5; }
          else if (Op == "sput") static_cast<T &>(**B) = val<T>(V);
          else return 3;
        } catch (const Base::Exception<Base::BCL>::Error<CELL_COLL_1(Base::ErrorList::Assign)> &) { Thrown = true; }
      } else return 3;
      auto weak = [&](int K) -> const W<T> & { return *Ws[K]; };
      auto value = [&](const W<T> &X) { return X == undef ? 0 : code<T>(static_cast<const T &>(X), NV); };
      std::ostringstream O;
      O << "{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"v\":" << V << ",\"x\":" << (Fails ? "true" : "false") << "},\"nv\":" << NV << ",\"r\":"
        << (Thrown ? "true" : "false") << ",\"w\":" << row(NW, [&](int K) { return to_string(value(weak(K))); });
      O << ",\"s\":" << row(NS, [&](int K) {
        const S &C = *Ss[K];
        return to_string(code<T>(static_cast<T &>(*Ss[K]), NV) == code<T>(static_cast<const T &>(C), NV) ? code<T>(static_cast<const T &>(C), NV) : 98);
      });
      O << ",\"p\":" << row(NW, [&](int K) {
        std::ostringstream P;
        P << weak(K);
        if (P.str() == "undef") return std::string("0");
        for (int X = 1; X <= NV; ++X) {
          std::ostringstream Q;
          Q << val<T>(X);
          if (Q.str() == P.str()) return to_string(X);
        }
        return std::string("97");
      });
      int N = NW + NS + NV;
      auto with = [&](int K, auto &&Fn) {
        if (K < NW) return Fn(weak(K));
        if (K < NW + NS) return Fn(static_cast<const S &>(*Ss[K - NW]));
        return Fn(val<T>(K - NW - NS + 1));
      };
      O << ",\"cmp\":" << row(N, [&](int X) { return row(N, [&](int Y) {
        return with(X, [&](const auto &P) { return with(Y, [&](const auto &Q) {
          using PT = std::decay_t<decltype(P)>;
          using QT = std::decay_t<decltype(Q)>;
          if constexpr (std::is_same<PT, W<T>>::value || std::is_same<QT, W<T>>::value) return to_string(compare(P, Q));
          else return std::string("0");
        }); });
      }); });
      O << ",\"und\":" << row(NW + NS, [&](int K) { return K < NW ? undefined(*Ws[K]) : undefined(*Ss[K - NW]); });
      O << ",\"mix\":";
      if constexpr (std::is_same<T, int>::value) {
        // with values of another type
        O << row(NW, [&](int X) { return row(NW, [&](int Y) {
          W<long long> Q;
          if (weak(Y) != undef) Q = static_cast<const int &>(weak(Y));
          int R = compare(weak(X), Q);
          if (weak(Y) != undef && compare(weak(X), (long long)static_cast<const int &>(weak(Y))) != R) R = 96;
          return to_string(R);
        }); });
      } else O << "[]";
      O << "}";
      Out += (Out.empty() ? "[" : ",") + O.str();
    }
    std::cout << Out << "]" << std::endl;
  }
  return 0;
}

// Names of types.
template<class T> struct Name;
#define NAME(T, N) template<> struct Name<T> { static std::string get() { return "[\"" N "\"]"; } };
struct Foo {};
NAME(short, "short") NAME(int, "int") NAME(long, "long") NAME(long long, "longlong") NAME(unsigned short, "ushort")
NAME(unsigned, "uint") NAME(unsigned long, "ulong") NAME(unsigned long long, "ulonglong") NAME(float, "float")
NAME(double, "double") NAME(long double, "longdouble") NAME(char, "char") NAME(wchar_t, "wchar") NAME(Null, "null")
NAME(Foo, "foo") NAME(bool, "bool") NAME(signed char, "schar") NAME(std::string, "text")
template<class T> struct Name<T *> { static std::string get() { return "[\"ptr\"," + Name<T>::get() + "]"; } };
template<class T> struct Name<T &> { static std::string get() { return "[\"ref\"," + Name<T>::get() + "]"; } };
template<class T> struct Name<const T> { static std::string get() { return "[\"const\"," + Name<T>::get() + "]"; } };
template<class T, class N> struct Name<Value<T, N>> { static std::string get() { return "[\"val\"," + Name<T>::get() + "]"; } };
template<class C, class T, class U> void cond() {
  bool V = C::Value();
  static_assert(std::is_same<typename C::Type, bool>::value, "a condition is logical");
  std::cout << "{\"r\":" << (V ? "true" : "false") << ",\"chosen\":" << Name<typename Utility::If<C, T, U>::Result>::get() << "}" << std::endl;
}
template<class T> void traits() {
  using R = Utility::TypeTraits<T>;
  if (!std::is_same<typename Utility::Pointer<T>::Declaration, T *>::value) { std::cout << "{\"r\":[]}" << std::endl; return; }
  std::cout << "{\"r\":[" << Name<typename R::Type>::get() << "," << Name<typename R::Reference>::get() << "," << Name<typename R::ReferenceC>::get()
    << "," << Name<typename R::Pointer>::get() << "," << Name<typename R::PointerC>::get() << "]}" << std::endl;
}
// Numbers of different types compared, at least one of the two in a weak value.
// A number is given in quarters.
template<class T> std::vector<double> numbers() {
  if (std::is_integral<T>::value) return {-8, 0, 4, 8};
  return {-8, -7, 0, 1, 4, 5, 8, 0.0 / 0.0};
}
template<class F> void operands(F &&Fn) {
  auto each = [&](auto Zero, const char *Type) {
    using T = decltype(Zero);
    auto name = [&](const char *K, bool Undef, double Q) {
      std::ostringstream O;
      O << "{\"k\":\"" << K << "\",\"n\":\"" << Type << "\",\"u\":" << (Undef ? "true" : "false") << ",\"nan\":" << (Q != Q ? "true" : "false")
        << ",\"q\":" << (Q != Q ? 0 : int(Q)) << "}";
      return O.str();
    };
    W<T> U;
    U = T(1);
    U = undef;
    Fn(U, name("weak", true, 0), std::true_type());
    for (double Q : numbers<T>()) {
      const T X = T(Q / 4);
      Fn(W<T>(X), name("weak", false, Q), std::true_type());
      typename Strong<T>::S S;
      S = X;
      Fn(S, name("strong", false, Q), std::false_type());
      Fn(X, name("value", false, Q), std::false_type());
    }
  };
  each(int(), "int");
  each((long long)0, "longlong");
  each(float(), "float");
  each(double(), "double");
}
static int numbers() {
  operands([](const auto &A, std::string NA, auto WA) {
    operands([&](const auto &B, std::string NB, auto WB) {
      if constexpr (decltype(WA)::value || decltype(WB)::value)
        std::cout << "{\"f\":\"numbers\",\"a\":" << NA << ",\"b\":" << NB << ",\"r\":" << compare(A, B) << "}\n";
    });
  });
  return 0;
}
static void logic();
#include "logic.h"

int main(int, char **Argv) {
  std::string T = Argv[1];
  int NW = std::atoi(Argv[2]), NS = std::atoi(Argv[3]), NV = std::atoi(Argv[4]);
  if (T == "int") return run<int>(NW, NS, NV);
  if (T == "double") return run<double>(NW, NS, NV);
  if (T == "text") return run<std::string>(NW, NS, NV);
  if (T == "pt") return run<Pt>(NW, NS, NV);
  if (T == "bool") return run<bool>(NW, NS, NV);
  if (T == "bomb") return run<Bomb>(NW, NS, NV);
  if (T == "numbers") return numbers();
  if (T == "ptr") return run<int *>(NW, NS, NV);
  logic();
}
