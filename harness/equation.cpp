// Histories of milp::BinomialSystem. Input per line:
//   gcd a b ; ...
//   safe sys  push a x b y c  ng g...  ni ig...  nm q z ... ; inst n val... ; solve ; positive ; reverse ;
// `kind` selects the types of columns and values; the system is built once with
// each kind and both have to behave in the same way.
#include <bcl/Equation.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
struct Col {
  int Id = 0;
  Col() = default;
  Col(int I) : Id(I) {}
  bool operator==(const Col &C) const { return Id == C.Id; }
};
static int id(Col C) { return C.Id; }
static int id(int C) { return C; }
template<class C, class V> struct Info {
  std::vector<long> Val{0};
  int Next = 1000;
  template<class T> T get(C Z) const { return (T)Val[id(Z)]; }
  C parameterColumn() { return C(Next++); }
  C parameterColumn(C Of) { return C(id(Of) + 100000); }
  bool isParameter(C Z) const { return id(Z) >= 1000; }
  std::string name(C Z) const { return "v" + std::to_string(id(Z)); }
};
template<class Rng> static std::string cols(const Rng &R) {
  std::string S = "[";
  for (auto &X : R) S += (S.size() > 1 ? "," : "") + std::to_string(id(X));
  return S + "]";
}
template<class Rng> static std::string monoms(const Rng &R) {
  std::string S = "[";
  for (auto &X : R) S += (S.size() > 1 ? ",[" : "[") + std::to_string(X.Value) + "," + std::to_string(id(X.Column)) + "]";
  return S + "]";
}
template<class E> static std::string eq(const E &R) {
  std::ostringstream O;
  O << '[' << R.LHS.Value << ',' << id(R.LHS.Column) << ',' << R.RHS.Value << ',' << id(R.RHS.Column) << ',' << R.Constant << ']';
  return O.str();
}
template<class S> static std::string sol(const S &X) {
  std::ostringstream O;
  O << '[';
  bool F = true;
  for (auto &R : X) {
    O << (F ? "" : ",") << '[' << id(R.LHS.Column) << ',' << R.LHS.Value << ',' << R.RHS.Value << ',' << id(R.RHS.Column) << ',' << R.Constant << ']';
    F = false;
  }
  return O.str() + "]";
}
// Printed rows as lists: "a vX + b vY = c | guards: vZ=1 .. inverse guards: vZ=0 ..
// computed monoms: q vZ = p .." -> [a,X,b,Y,c,[[Z,1]..],[[Z,0]..],[[q,Z,p]..]].
static std::string row(const std::string &Line) {
  std::istringstream In(Line);
  std::string T, R = "[", G[3];
  int Part = -1, N = 0;
  auto num = [](std::string X) { return X[0] == 'v' ? X.substr(1) : X; };
  while (In >> T) {
    if (T == "+" || T == "=" || T == "|" || T == "inverse" || T == "computed") continue;
    if (T == "guards:" || T == "monoms:") { ++Part; N = 0; continue; }
    if (Part < 0) { R += (R.size() > 1 ? "," : "") + num(T); continue; }
    auto &L = G[Part];
    if (Part < 2) {
      auto P = T.find('=');
      L += (L.empty() ? "[" : ",[") + num(T.substr(0, P)) + "," + (P == std::string::npos ? "" : T.substr(P + 1)) + "]";
    } else {
      L += N % 3 ? "," : L.empty() ? "[" : ",[";
      L += num(T) + (N++ % 3 == 2 ? "]" : "");
    }
  }
  if (Part >= 0) for (auto &L : G) R += ",[" + L + "]";
  return R + "]";
}
// Sections of rows, each with a title.
static std::string sections(const std::string &S) {
  std::istringstream In(S);
  std::string L, R = "{";
  bool First = true;
  while (std::getline(In, L)) {
    if (L.substr(0, 4) == "--- ") { R += (R.size() > 1 ? "],\"" : "\"") + L.substr(4, L.size() - 8) + "\":["; First = true; }
    else { R += (First ? "" : ",") + row(L); First = false; }
  }
  return R + (R.size() > 1 ? "]}" : "}");
}
template<class C, class V> static std::string play(std::istringstream &In, bool Safe, bool Log) {
  milp::BinomialSystem<C, V, 7, 6, 12> S;
  Info<C, V> I;
  std::ostringstream O, L;
  O << '[';
  std::string Op;
  bool First = true;
  while (In >> Op) {
    if (Op == ";") continue;
    O << (First ? "{" : ",{") << "\"op\":\"" << Op << "\"";
    First = false;
    if (Op == "gcd") {
      V A, B; In >> A >> B;
      auto R = milp::euclidGCD(A, B);
      O << ",\"a\":" << A << ",\"b\":" << B << ",\"g\":" << std::get<0>(R) << ",\"u\":" << std::get<1>(R) << ",\"v\":" << std::get<2>(R);
    } else if (Op == "push") {
      V A, B, K; int X, Y, N;
      In >> A >> X >> B >> Y >> K;
      S.push_back({C(X), A}, {C(Y), B}, K);
      std::string G = "[", IG = "[", M = "[";
      In >> N;
      for (int J = 0, Z; J < N; ++J) { In >> Z; S.back().addGuard(C(Z)); G += (J ? "," : "") + std::to_string(Z); }
      In >> N;
      for (int J = 0, Z; J < N; ++J) { In >> Z; S.back().addInverseGuard(C(Z)); IG += (J ? "," : "") + std::to_string(Z); }
      In >> N;
      for (int J = 0, Z; J < N; ++J) {
        V Q; In >> Q >> Z;
        S.back().addComputedMonom({C(Z), Q});
        M += (J ? ",[" : "[") + std::to_string(Q) + "," + std::to_string(Z) + "]";
      }
      const auto &R = S.back();
      O << ",\"row\":{\"a\":" << A << ",\"x\":" << X << ",\"b\":" << B << ",\"y\":" << Y << ",\"c\":" << K << ",\"g\":" << G
        << "],\"ig\":" << IG << "],\"m\":" << M << "]},\"size\":" << S.size() << ",\"isinst\":" << (S.isInstantiated() ? "true" : "false")
        << ",\"ng\":" << R.guard_size() << ",\"ni\":" << R.inverse_size() << ",\"nm\":" << R.computed_size()
        << ",\"g\":" << cols(R.guards()) << ",\"ig\":" << cols(R.inverse_guards()) << ",\"m\":" << monoms(R.computed_monoms());
    } else if (Op == "inst") {
      int N; In >> N;
      O << ",\"val\":[";
      for (int J = 0, Z; J < N; ++J) { In >> Z; I.Val.push_back(Z); O << (J ? "," : "") << Z; }
      S.instantiate(I);
      O << "],\"isinst\":" << (S.isInstantiated() ? "true" : "false") << ",\"size\":" << S.size() << ",\"n\":" << S.instantiated_size() << ",\"inst\":[";
      bool F = true;
      for (auto B = S.instantiated_begin(), E = S.instantiated_end(); B != E; ++B) { O << (F ? "" : ",") << eq(*B); F = false; }
      O << ']';
      const auto &CS = S;
      if (CS.instantiated_end() - CS.instantiated_begin() != S.instantiated_end() - S.instantiated_begin()) O << ",\"bad\":1";
      std::ostringstream P;
      S.printInstantiated(I, P);
      O << ",\"shown\":" << sections(P.str());
    } else if (Op == "solve") {
      std::size_t N = Log ? (Safe ? S.template solve<Info<C, V>, true>(I, L) : S.template solve<Info<C, V>, false>(I, L))
                          : (Safe ? S.template solve<Info<C, V>, true>(I) : S.template solve<Info<C, V>, false>(I));
      O << ",\"n\":" << N << ",\"sol\":" << sol(S.getSolution());
      std::ostringstream P;
      S.printSolution(I, P);
      O << ",\"shown\":" << sections(P.str());
    } else if (Op == "positive") {
      S.solutioWithPositiveConstant(I);
      O << ",\"sol\":" << sol(S.getSolution());
    } else if (Op == "reverse") {
      S.reverseSolution(I);
      O << ",\"sol\":" << sol(S.getSolution());
    } else { std::cerr << "bad op " << Op << "\n"; exit(4); }
    O << '}';
  }
  return O.str() + "]";
}
int main() {
  std::string Line;
  int N = 0;
  while (std::getline(std::cin, Line)) {
    ++N;
    bool Safe = Line[0] == 's';
    std::istringstream A(Line.substr(1)), B(Line.substr(1));
    auto RA = play<int, int>(A, Safe, N % 5 == 0);
    auto RB = play<Col, long long>(B, Safe, false);
    if (RA != RB) { std::cout << "{\"differ\":[" << RA << "," << RB << "]}\n"; continue; }
    std::cout << RA << "\n";
  }
}
