// Parses and unparses JSON with bcl/Json.h. Input: one test per line, operations
// separated by " ; ":
//   p TYPE HEX          parse a text as a type
//   u TYPE VALUE        unparse a value and parse the result
//   r KEY HEX           parse an object that is marked with its name
//   w KEY NAME VALUE    unparse such an object and parse the result
// Output: one JSON array of records per line.
#include <bcl/Json.h>
#include <cstring>
#include <iostream>
#include <sstream>
using namespace std;

static string unhex(const string &H) {
  string R;
  if (H != "-") for (size_t I = 0; I + 1 < H.size(); I += 2) R += char(stoi(H.substr(I, 2), nullptr, 16));
  return R;
}
static string codes(const string &S) {
  string R = "[";
  for (size_t I = 0; I < S.size(); ++I) R += (I ? "," : "") + to_string((unsigned char)S[I]);
  return R + "]";
}
JSON_OBJECT_BEGIN(Sub)
JSON_OBJECT_PAIR_2(Sub, X, std::string, Y, std::optional<int>)
JSON_OBJECT_END(Sub)
JSON_DEFAULT_TRAITS(::, Sub)

using Ints = std::vector<int>;
using StrMap = std::map<std::string, int>;
JSON_OBJECT_BEGIN(Human)
JSON_OBJECT_ROOT_PAIR_4(Human, Name, std::string, Age, unsigned, Tags, std::vector<std::string>, Inner, Sub)
  Human() : JSON_INIT_ROOT { (*this)[Human::Age] = 7; }
JSON_OBJECT_END(Human)
JSON_DEFAULT_TRAITS(::, Human)

JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR_3(Dog, Name, std::string, List, Ints, Map, StrMap)
  Dog() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Dog)
JSON_DEFAULT_TRAITS(::, Dog)

// without members
JSON_OBJECT_BEGIN(Nil)
JSON_OBJECT_ROOT(Nil)
  Nil() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Nil)
JSON_DEFAULT_TRAITS(::, Nil)

template<class T> struct V;     // input and output of values
#define NUM(T, F) template<> struct V<T> { \
  static void in(istream &I, T &X) { string H; I >> H; X = F(unhex(H)); } \
  static string out(const T &X) { return codes(to_string(X)); } };
NUM(int, stoi) NUM(long, stol) NUM(long long, stoll) NUM(unsigned, (unsigned)stoul)
NUM(unsigned long, stoul) NUM(unsigned long long, stoull)
template<class T> struct Dec {
  static void in(istream &I, T &X) { string H; I >> H; X = (T)stod(unhex(H)); }
  static string out(const T &X) { char B[512]; snprintf(B, sizeof B, "%.6f", double(X)); return codes(B); }
};
template<> struct V<double> : Dec<double> {};
template<> struct V<float> : Dec<float> {};
template<> struct V<bool> {
  static void in(istream &I, bool &X) { string H; I >> H; X = unhex(H) == "true"; }
  static string out(bool X) { return codes(X ? "true" : "false"); }
};
template<> struct V<char> {
  static void in(istream &I, char &X) { string H; I >> H; X = unhex(H)[0]; }
  static string out(char X) { return codes(string(1, X)); }
};
template<> struct V<string> {
  static void in(istream &I, string &X) { string H; I >> H; X = unhex(H); }
  static string out(const string &X) { return codes(X); }
};
template<class C> struct Coll {
  static string out(const C &X) {
    string R;
    for (auto &E : X) R += (R.empty() ? "" : ",") + V<decay_t<decltype(E)>>::out(E);
    return "[" + R + "]";
  }
};
template<class E> struct V<vector<E>> : Coll<vector<E>> {
  static void in(istream &I, vector<E> &X) { size_t N; I >> N; X.resize(N); for (auto &Y : X) V<E>::in(I, Y); }
};
template<class E> struct V<set<E>> : Coll<set<E>> {
  static void in(istream &I, set<E> &X) { size_t N; I >> N; while (N--) { E Y; V<E>::in(I, Y); X.insert(Y); } }
};
template<class A, class B> struct V<pair<A, B>> {
  static string out(const pair<A, B> &X) { return "[" + V<decay_t<A>>::out(X.first) + "," + V<B>::out(X.second) + "]"; }
};
template<class C, class K, class E> struct Assoc : Coll<C> {
  static void in(istream &I, C &X) { size_t N; I >> N; while (N--) { K A; E B; V<K>::in(I, A); V<E>::in(I, B); X.emplace(A, B); } }
};
template<class K, class E> struct V<map<K, E>> : Assoc<map<K, E>, K, E> {};
template<class K, class E> struct V<multimap<K, E>> : Assoc<multimap<K, E>, K, E> {};
template<class E> struct V<optional<E>> {
  static void in(istream &I, optional<E> &X) { int N; I >> N; X.reset(); if (N) { E Y; V<E>::in(I, Y); X = Y; } }
  static string out(const optional<E> &X) { return X ? "[" + V<E>::out(*X) + "]" : "[]"; }
};
#define FIELD_IN(O, F) V<decay_t<decltype(X[O::F])>>::in(I, X[O::F]);
#define FIELD_OUT(O, F) V<decay_t<decltype(X[O::F])>>::out(X[O::F])
template<> struct V<Sub> {
  static void in(istream &I, Sub &X) { FIELD_IN(Sub, X) FIELD_IN(Sub, Y) }
  static string out(const Sub &X) { return "[" + FIELD_OUT(Sub, X) + "," + FIELD_OUT(Sub, Y) + "]"; }
};
template<> struct V<Human> {
  static void in(istream &I, Human &X) { FIELD_IN(Human, Name) FIELD_IN(Human, Age) FIELD_IN(Human, Tags) FIELD_IN(Human, Inner) }
  static string out(const Human &X) {
    return "[" + FIELD_OUT(Human, Name) + "," + FIELD_OUT(Human, Age) + "," + FIELD_OUT(Human, Tags) + "," + FIELD_OUT(Human, Inner) + "]";
  }
};
template<> struct V<Dog> {
  static void in(istream &I, Dog &X) { FIELD_IN(Dog, Name) FIELD_IN(Dog, List) FIELD_IN(Dog, Map) }
  static string out(const Dog &X) { return "[" + FIELD_OUT(Dog, Name) + "," + FIELD_OUT(Dog, List) + "," + FIELD_OUT(Dog, Map) + "]"; }
};
template<> struct V<Nil> {
  static void in(istream &, Nil &) {}
  static string out(const Nil &) { return "[]"; }
};

// A pointer to a value, or null: a member or a value of a map.
template<class E> struct V<E *> {
  static void in(istream &I, E *&X) { int N; I >> N; X = nullptr; if (N) { X = new E; V<E>::in(I, *X); } }
  static string out(E *X) { return X ? "[" + V<E>::out(*X) + "]" : "[]"; }
};
template<> struct V<char *> {
  static void in(istream &I, char *&X) {
    int N;
    string H;
    I >> N;
    X = nullptr;
    if (N) { I >> H; H = unhex(H); X = new char[H.size() + 1]; memcpy(X, H.c_str(), H.size() + 1); }
  }
  static string out(char *X) {
    string R;
    if (!X) return "[]";
    for (; *X; ++X) R += (R.empty() ? "" : ",") + V<char>::out(*X);
    return "[[" + R + "]]";
  }
};
template<class T> static void release(T &) {}
template<class E> static void release(E *&X) { delete X; }
static void release(char *&X) { delete[] X; }
template<class C> static void releaseAll(C &X) { for (auto &E : X) release(E.second); }
template<class K, class E> static void release(map<K, E> &X) { releaseAll(X); }
template<class K, class E> static void release(multimap<K, E> &X) { releaseAll(X); }
JSON_OBJECT_BEGIN(Ref)
JSON_OBJECT_PAIR_3(Ref, A, int *, S, char *, Z, std::string *)
  Ref() : JSON_INIT(Ref, nullptr, nullptr, nullptr) {}
JSON_OBJECT_END(Ref)
JSON_DEFAULT_TRAITS(::, Ref)
template<> struct V<Ref> {
  static void in(istream &I, Ref &X) { FIELD_IN(Ref, A) FIELD_IN(Ref, S) FIELD_IN(Ref, Z) }
  static string out(const Ref &X) { return "[" + FIELD_OUT(Ref, A) + "," + FIELD_OUT(Ref, S) + "," + FIELD_OUT(Ref, Z) + "]"; }
};
static void release(Ref &X) { release(X[Ref::A]); release(X[Ref::S]); release(X[Ref::Z]); }

static const char *B(bool X) { return X ? "true" : "false"; }
struct Ops {
  virtual string parse(const string &Text) = 0;
  virtual string unparse(istream &I) = 0;
};
template<class T> struct OpsOf : Ops {
  string parse(const string &Text) override {
    T X{};
    json::Parser<> P(Text);
    bool Ok = P.parse(X);
    string R = string("\"ok\":") + B(Ok) + ",\"err\":" + B(P.hasErrors());
    // the same parser may read its text again
    T Y{};
    bool Same = P.parse(Y) == Ok && (!Ok || V<T>::out(X) == V<T>::out(Y));
    R += string(",\"same\":") + B(Same) + ",\"v\":" + (Ok ? V<T>::out(X) : "[]");
    release(X);
    release(Y);
    return R;
  }
  string unparse(istream &I) override {
    T X{}, Y{};
    V<T>::in(I, X);
    string Text = json::Parser<>::unparse(X);
    json::Parser<> P(Text);
    bool Ok = P.parse(Y);
    string R = "\"text\":" + codes(Text) + ",\"v\":" + V<T>::out(X) + ",\"ok\":" + B(Ok) + ",\"err\":" + B(P.hasErrors()) +
      ",\"v2\":" + (Ok ? V<T>::out(Y) : "[]");
    release(X);
    release(Y);
    return R;
  }
};
// Arrays: the number of elements is known from the same text read as a vector.
template<class E> struct PtrOps : Ops {
  string parse(const string &Text) override {
    E *X = nullptr;
    json::Parser<> P(Text);
    bool Ok = P.parse(X);
    string R = string("\"ok\":") + B(Ok) + ",\"err\":" + B(P.hasErrors()) + ",\"same\":true,\"v\":[";
    size_t S = Text.find_first_not_of(" \t\r\n\v\f");
    bool Array = S != string::npos && (Text[S] == '[' || Text[S] == '{');
    if (Ok) {
      size_t N = 1;
      if (Array) {
        vector<E> Y;
        json::Parser<> Q(Text);
        N = Q.parse(Y) ? Y.size() : 0;
        if (N == 0 && X) N = 1;
      } else if constexpr (is_same<E, char>::value) {
        string Y;
        json::Parser<> Q(Text);
        Q.parse(Y);
        N = Y.size();
        if (X[N] != 0) R += "[0],";   // not terminated
      }
      for (size_t I = 0; I < N; ++I) R += (I ? "," : "") + V<E>::out(X[I]);
    }
    // a value which is followed by something else has been stored, too
    if (Array || is_same<E, char>::value) delete[] X; else delete X;
    return R + "]";
  }
  string unparse(istream &I) override {
    string R;
    if constexpr (is_same<E, char>::value) {
      string H;
      I >> H;
      H = unhex(H);
      char *Y = nullptr;
      string Text = json::Parser<>::unparse((const char *)H.c_str());
      json::Parser<> P(Text);
      bool Ok = P.parse(Y);
      string L, M;
      for (char C : H) L += (L.empty() ? "" : ",") + V<char>::out(C);
      for (size_t K = 0; Ok && Y[K]; ++K) M += (M.empty() ? "" : ",") + V<char>::out(Y[K]);
      R = "\"text\":" + codes(Text) + ",\"v\":[" + L + "],\"ok\":" + B(Ok) + ",\"err\":" + B(P.hasErrors()) + ",\"v2\":[" + M + "]";
      if (Ok) delete[] Y;
    } else {
      E X{}, *Z = &X, *Y = nullptr;
      V<E>::in(I, X);
      string Text = json::Parser<>::unparse(Z);
      json::Parser<> P(Text);
      bool Ok = P.parse(Y);
      R = "\"text\":" + codes(Text) + ",\"v\":[" + V<E>::out(X) + "],\"ok\":" + B(Ok) + ",\"err\":" + B(P.hasErrors()) +
        ",\"v2\":[" + (Ok ? V<E>::out(*Y) : "") + "]";
      if (Ok) delete Y;
    }
    return R;
  }
};
extern map<string, Ops *> Table;
template<class T> static void def(const char *N) { static OpsOf<T> O; Table[N] = &O; }
template<class T> static void defPtr(const char *N) { static PtrOps<T> O; Table[N] = &O; }
// The types are spread over several translation units.
#if PART == 1
void part1() {
  def<int>("int");
  def<unsigned long long>("ullong");
  def<float>("flt");
  def<set<int>>("set int");
  def<map<bool, int>>("map bool int");
  def<optional<int>>("opt int");
  def<optional<vector<int>>>("opt vec int");
  def<map<string, Sub>>("map str Sub");
  defPtr<char>("ptr char");
}
#elif PART == 2
void part2() {
  def<unsigned>("uint");
  def<bool>("bool");
  def<vector<int>>("vec int");
  def<set<string>>("set str");
  def<map<string, vector<int>>>("map str vec int");
  def<optional<string>>("opt str");
  def<vector<optional<vector<string>>>>("vec opt vec str");
  def<Human>("Human");
  defPtr<Sub>("ptr Sub");
  def<map<string, int *>>("map str nptr int");
  def<multimap<int, char *>>("mmap int nptr char");
}
#elif PART == 3
void part3() {
  def<long>("long");
  def<char>("char");
  def<vector<string>>("vec str");
  def<vector<set<int>>>("vec set int");
  def<map<unsigned, map<string, int>>>("map uint map str int");
  def<optional<bool>>("opt bool");
  def<map<char, vector<double>>>("map char vec dec");
  def<Dog>("Dog");
}
#elif PART == 4
void part4() {
  def<unsigned long>("ulong");
  def<string>("str");
  def<vector<vector<int>>>("vec vec int");
  def<map<string, int>>("map str int");
  def<multimap<string, int>>("mmap str int");
  def<vector<optional<int>>>("vec opt int");
  def<Sub>("Sub");
  defPtr<int>("ptr int");
}
#elif PART == 5
void part5() {
  def<long long>("llong");
  def<double>("dec");
  def<vector<char>>("vec char");
  def<map<int, string>>("map int str");
  def<multimap<int, string>>("mmap int str");
  def<map<string, optional<string>>>("map str opt str");
  def<vector<Sub>>("vec Sub");
  defPtr<string>("ptr str");
  def<Ref>("Ref");
  def<vector<float>>("vec flt");
  def<vector<double>>("vec dec");
  def<map<char, string *>>("map char nptr str");
}
#elif PART >= 6
// objects with any number of members
#include "pairs.h"
#else
map<string, Ops *> Table;
void part1();
void part2();
void part3();
void part4();
void part5();
#ifdef PAIRS
#define PAIR_PART(N) void part##N();
PAIRS
#undef PAIR_PART
#endif
using RootParser = json::Parser<Human, Dog, Nil>;
static string outRoot(json::Object *O) {
  if (!O) return "\"name\":[],\"v\":[]";
  string R = "\"name\":" + codes(O->getName()) + ",\"v\":";
  if (O->is<Human>()) return R + V<Human>::out(O->as<Human>());
  if (O->is<Dog>()) return R + V<Dog>::out(O->as<Dog>());
  if (O->is<Nil>()) return R + V<Nil>::out(O->as<Nil>());
  return R + "[[0]]";
}
template<class T> static string unparseRoot(istream &I, const string &Key, int Way) {
  T X;
  V<T>::in(I, X);
  string Text = Way ? RootParser::unparseAsObject(X, Key.c_str())
                    : RootParser::unparse(static_cast<const json::Object &>(X), Key.c_str());
  RootParser P(Text, Key.c_str());
  auto O = P.parse();
  string N = outRoot(O.get());
  auto At = N.find(",\"v\":");
  return "\"text\":" + codes(Text) + ",\"name\":" + codes(T::name()) + ",\"v\":" + V<T>::out(X) +
    ",\"ok\":" + B(!!O) + ",\"err\":" + B(P.hasErrors()) +
    ",\"name2\":" + N.substr(7, At - 7) + ",\"v2\":" + N.substr(At + 5);
}

int main() {
  part1();
  part2();
  part3();
  part4();
  part5();
#ifdef PAIRS
#define PAIR_PART(N) part##N();
  PAIRS
#endif
  string Line;
  while (getline(cin, Line)) {
    istringstream I(Line);
    string Op, Res;
    while (I >> Op) {
      string R;
      if (Op == "p" || Op == "u") {
        string Ty, W;
        I >> Ty;
        for (auto &C : Ty) if (C == '_') C = ' ';
        Ops *O = Table.at(Ty);
        if (Op == "p") { I >> W; R = "\"text\":" + codes(unhex(W)) + "," + O->parse(unhex(W)); }
        else R = O->unparse(I);
        R += ",\"t\":\"" + Ty + "\"";
      } else if (Op == "r") {
        string Key, H;
        I >> Key >> H;
        H = unhex(H);
        RootParser P(H, Key.c_str());
        auto O = P.parse();
        R = "\"key\":" + codes(Key) + ",\"text\":" + codes(H) + ",\"ok\":" + B(!!O) + ",\"err\":" + B(P.hasErrors()) + "," + outRoot(O.get());
        auto Again = P.parse();
        R += string(",\"same\":") + B(outRoot(O.get()) == outRoot(Again.get()));
      } else {
        string Key, Name;
        I >> Key >> Name;
        int Way = Key[0] == '+';
        if (Way) Key.erase(0, 1);
        R = "\"key\":" + codes(Key) + ",";
        if (Name == "Human") R += unparseRoot<Human>(I, Key, Way);
        else if (Name == "Dog") R += unparseRoot<Dog>(I, Key, Way);
        else R += unparseRoot<Nil>(I, Key, Way);
      }
      Res += (Res.empty() ? "" : ",") + ("{\"op\":\"" + Op + "\"," + R + "}");
      I >> Op;   // ;
    }
    cout << "[" << Res << "]" << endl;
  }
}
#endif
