// Operations on bcl::Diagnostic. Input per line: "op i j kind code pos fmt sig args... ; ...",
// texts in hexadecimal; sig lists the types of the arguments (s, d, c).
#include <bcl/Json.h>
#include <cstdarg>
#include <iostream>
#include <memory>
#include <sstream>
using namespace std;
using bcl::Diagnostic;
// Formatting fails from the FailAt-th call on (1: from the first one), 0: never.
static int FailAt = 0;
extern "C" int __real_vsnprintf(char *, size_t, const char *, va_list);
extern "C" int __wrap_vsnprintf(char *S, size_t N, const char *F, va_list A) {
  if (FailAt && --FailAt == 0) { FailAt = 1; return -1; }
  return __real_vsnprintf(S, N, F, A);
}
extern "C" int __wrap_snprintf(char *S, size_t N, const char *F, ...) {
  va_list A;
  va_start(A, F);
  int R = __wrap_vsnprintf(S, N, F, A);
  va_end(A);
  return R;
}
static string unhex(const string &H) {
  string R;
  if (H != "-") for (size_t I = 0; I + 1 < H.size(); I += 2) R += char(stoi(H.substr(I, 2), nullptr, 16));
  return R;
}
static string codes(const string &S) {
  string R = "[";
  for (size_t I = 0; I < S.size(); ++I) R += (I ? "," : "") + to_string((unsigned char)S[I]);
  return R + "]";
}
static bool insert(Diagnostic &D, size_t C, uintmax_t P, const string &F, const string &Sig, const vector<string> &A) {
  auto s = [&](int I) { return A[I].c_str(); };
  auto d = [&](int I) { return stoi(A[I]); };
  auto c = [&](int I) { return A[I][0]; };
  const char *f = F.c_str();
  if (Sig == "-") return D.insert(C, f, P);
  if (Sig == "s") return D.insert(C, f, P, s(0));
  if (Sig == "d") return D.insert(C, f, P, d(0));
  if (Sig == "c") return D.insert(C, f, P, c(0));
  if (Sig == "ss") return D.insert(C, f, P, s(0), s(1));
  if (Sig == "sd") return D.insert(C, f, P, s(0), d(1));
  if (Sig == "cs") return D.insert(C, f, P, c(0), s(1));
  if (Sig == "dcs") return D.insert(C, f, P, d(0), c(1), s(2));
  if (Sig == "sssss") return D.insert(C, f, P, s(0), s(1), s(2), s(3), s(4));
  if (Sig == "sdcsdcsd") return D.insert(C, f, P, s(0), d(1), c(2), s(3), d(4), c(5), s(6), d(7));
  exit(4);
}
int main(int, char **Argv) {
  int N = atoi(Argv[1]);
  string Line;
  while (getline(cin, Line)) {
    vector<unique_ptr<Diagnostic>> D(N + 1);
    for (int I = 1; I <= N; ++I) D[I].reset(new Diagnostic("e"));
    istringstream In(Line);
    string Op, Kind, Code, Pos, F, Sig, H;
    int I, J;
    cout << '[';
    bool First = true;
    int Step = 0;
    while (In >> Op >> I >> J >> Kind >> Code >> Pos >> F >> Sig) {
      vector<string> A;
      while (In >> H && H != ";") A.push_back(unhex(H));
      string R = "0", Text = "[]";
      ++Step;
      if (Op == "new") D[I].reset(new Diagnostic(unhex(Kind).c_str()));
      else if (Op == "insert")
        R = insert(*D[I], stoull(unhex(Code)), stoull(unhex(Pos)), unhex(F), Sig, A) ? "true" : "false";
      else if (Op == "fail") {
        // a wide character that can not be converted in this locale
        const wchar_t W[] = {wchar_t(0x10ffff), 0};
        R = D[I]->insert(1, "%ls", 2, W) ? "true" : "false";
      } else if (Op == "fault") {
        FailAt = stoi(unhex(Code));
        R = D[I]->insert(7, "%s and %d", 8, "text", 9) ? "true" : "false";
        FailAt = 0;
      } else if (Op == "clear") D[I]->clear();
      else if (Op == "swap") {
        if (Step % 2) D[I]->swap(*D[J]); else std::swap(*D[I], *D[J]);
      } else if (Op == "json") {
        string S = json::Parser<>::unparse(*D[J]);
        Text = codes(S);
        json::Parser<> P(S);
        bool Ok = P.parse(*D[I]);
        if (Ok == P.hasErrors()) R = "\"errors\""; else R = Ok ? "true" : "false";
      } else return 4;
      cout << (First ? "" : ",") << "{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"kind\":" << codes(unhex(Kind))
        << ",\"code\":" << codes(unhex(Code)) << ",\"pos\":" << codes(unhex(Pos)) << ",\"fmt\":" << codes(unhex(F)) << ",\"args\":[";
      for (size_t K = 0; K < A.size(); ++K) cout << (K ? "," : "") << codes(A[K]);
      cout << "]},\"r\":" << R << ",\"text\":" << Text << ",\"d\":[";
      First = false;
      for (int K = 1; K <= N; ++K) {
        const Diagnostic &X = *D[K];
        vector<string> Fw, Bw;
        for (auto *P : X) Fw.push_back(P);
        auto IC = X.cbegin();
        for (size_t M = 0; IC != X.cend(); ++M) if (Fw[M] != *IC++) return 5;
        for (auto B = X.rbegin(); B != X.rend(); B++) Bw.push_back(*B);
        vector<string> Back;
        for (auto B = X.end(); B != X.begin();) { if (Back.size() % 2) --B; else B--; Back.push_back(*B); }
        if (Back != Bw || X.crend() != X.rend() || !(X.crbegin() == X.rbegin())) return 6;
        auto list = [](const vector<string> &V) {
          string S = "[";
          for (auto &Y : V) S += (S.size() > 1 ? "," : "") + codes(Y);
          return S + "]";
        };
        cout << (K > 1 ? "," : "") << "{\"kind\":" << codes(X.getKind()) << ",\"items\":" << list(Fw) << ",\"rev\":" << list(Bw)
          << ",\"size\":" << X.size() << ",\"empty\":" << (X.empty() ? "true" : "false") << ",\"bad\":" << X.internal_size() << "}";
      }
      cout << "]}";
    }
    cout << "]\n" << flush;
  }
}
