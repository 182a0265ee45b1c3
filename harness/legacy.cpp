// Errors and texts of the legacy part of bcl. The applications are in apps.h,
// generated: there run_apps() calls err<...>() for every error of every application.
// Input: one line per text: "num N" or "copy SIZE c c c ...".
#include <bcl/legacy/text.h>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
using namespace std;
static string quoted(const string &S) {
  string R = "\"";
  for (char C : S) { if (C == '"' || C == '\\') R += '\\'; R += C; }
  return R + "\"";
}
template<class T> static string list(const T &S) {
  string R = "[";
  for (auto C : S) R += (R.size() > 1 ? "," : "") + to_string((long)C);
  return R + "]";
}
// What application Seer (number A) sees of an error.
template<class Seer> static string seen(int A, const Base::IException &E) {
  return "{\"a\":" + to_string(A) + ",\"code\":" + to_string(E.template Code<Seer>()) + ",\"text\":" + quoted(E.template ToText<Seer>()) + "}";
}
template<class... Seers> struct See {
  template<size_t... Is> static string all(const vector<int> &A, const Base::IException &E, index_sequence<Is...>) {
    string R;
    ((R += (Is ? "," : "") + seen<Seers>(A[Is], E)), ...);
    return R;
  }
};
struct Cast { string From, To; };
// Everything but the types, once for all errors.
typedef string (*SeenBy)(const vector<int> &, const Base::IException &);
static void err(int B, const char *Path, const vector<int> &A, int Code, const string &Type, const string &Brief, const string &Text, int Count,
                const Base::IException &E, const Base::IException &C, const Cast &X, SeenBy Seen) {
  cout << "{\"op\":\"err\",\"b\":" << B << ",\"path\":" << Path << ",\"code\":" << Code << ",\"type\":" << quoted(Type) << ",\"brief\":" << quoted(Brief)
       << ",\"text\":" << quoted(Text) << ",\"count\":" << Count << ",\"relative\":" << E.RelativeCode() << ",\"etype\":" << quoted(E.Type())
       << ",\"ebrief\":" << quoted(E.Brief()) << ",\"seen\":[" << Seen(A, E) << "],\"castmsg\":" << quoted(C.Message()) << ",\"from\":" << quoted(X.From)
       << ",\"into\":" << quoted(X.To) << ",\"castbrief\":" << quoted(C.Brief()) << ",\"casttype\":" << quoted(C.Type()) << ",\"castseen\":["
       << Seen(A, C) << "]}" << endl;
}
template<class... Seers> static string seen_by(const vector<int> &A, const Base::IException &E) {
  return See<Seers...>::all(A, E, index_sequence_for<Seers...>());
}
template<class App, class Id, class Top, class... Seers>
static void err(int B, const char *Path, const vector<int> &A) {
  try { throw typename Base::Exception<App>::template Error<Id>(); }
  catch (Base::IException &E) {
    try { throw typename Base::Exception<App>::template TypeCastError<Id>("from", "to"); }
    catch (typename Base::Exception<App>::template TypeCastError<Id> &C) {
      err(B, Path, A, Base::CodeOfError<Id, App>(), Base::TypeOfError<Id, App>(), Base::BriefOfError<Id>(), Base::ErrorToText<Id, App>(),
          Base::CountOfErrors<Top>(), E, C, Cast{C.FromType(), C.ToType()}, &seen_by<Seers...>);
    }
  }
}
static void run_apps();
#include "apps.h"
template<class C, class F> static string copy(const vector<int> &T, size_t Size, F Fn) {
  // exactly as many characters as promised: AddressSanitizer sees every other one
  unique_ptr<C[]> To(new C[Size]);
  for (size_t I = 0; I < Size; ++I) To[I] = 1;
  vector<C> From(T.begin(), T.end());
  From.push_back(0);
  bool Thrown = false;
  int Code = 0;
  try { Fn(To.get(), Size, From.data()); } catch (Base::IException &E) { Thrown = true; Code = E.template Code<Base::BCL>(); }
  vector<int> R;
  bool Same = true;
  for (size_t I = 0; I < Size; ++I) Same &= To[I] == 1;
  if (!Thrown || !Same) for (size_t I = 0; I < Size && To[I]; ++I) R.push_back((unsigned)To[I] % (1u << 8 * sizeof(C) % 32 ? 256 : 0x7fffffff));
  return "{\"to\":" + list(R) + ",\"thrown\":" + (Thrown ? "true" : "false") + ",\"code\":" + to_string(Code) + "}";
}
template<bool B> using L = typename conditional<B, Utility::True, Utility::False>::type;
struct P { static constexpr int v = 1; };
struct Q { static constexpr int v = 2; };
template<bool A, bool B> static void logic() {
  using namespace Utility;
  cout << "{\"op\":\"logic\",\"a\":" << A << ",\"b\":" << B << ",\"not\":" << Not<L<A>>::Value() << ",\"and\":" << And<L<A>, L<B>>::Value()
       << ",\"or\":" << Or<L<A>, L<B>>::Value() << ",\"nested\":" << Or<Not<L<A>>, And<L<A>, L<B>>>::Value() << ",\"if\":" << If<L<A>, P, Q>::Result::v
       << ",\"ifdo\":" << If<Or<L<A>, L<B>>, P, Q>::Result::v << ",\"same\":" << IsIdentical<L<A>, L<B>>::Value() << "}" << endl;
}
int main() {
  run_apps();
  logic<false, false>(); logic<false, true>(); logic<true, false>(); logic<true, true>();
  string Line;
  while (getline(cin, Line)) {
    istringstream In(Line);
    string Op;
    if (!(In >> Op)) continue;
    if (Op == "num") {
      long N;
      In >> N;
      string S = Base::ToText(int(N)), A = Base::ToTextAnsi(int(N));
      wstring W = Base::ToTextUnicode(int(N));
      cout << "{\"op\":\"num\",\"n\":\"" << N << "\",\"text\":" << list(S) << ",\"ansi\":" << list(A) << ",\"wide\":" << list(W) << "}" << endl;
    } else {
      size_t Size;
      In >> Size;
      vector<int> T;
      int C;
      while (In >> C) T.push_back(C);
      cout << "{\"op\":\"copy\",\"from\":" << list(T) << ",\"size\":" << Size << ",\"r\":[" << copy<char>(T, Size, Base::CopyString) << ","
           << copy<char>(T, Size, Base::CopyAnsi) << "," << copy<wchar_t>(T, Size, Base::CopyUnicode) << "]}" << endl;
    }
  }
}
