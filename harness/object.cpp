// Operations on wrappers of objects (Utility::IObject). A test: "op k v ; ...",
// k: a wrapper (weak ones first, then strong ones), v: another one or a value.
// Arguments: static or dynamic, number of weak and of strong wrappers.
#include <bcl/legacy/declaration.h>
#include <bcl/utility.h>
#include <deque>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using Utility::IObject;
struct Thing;
static std::set<const Thing *> All;
static std::vector<Thing *> Made;
struct Thing {
  Thing() : Text("0"), Number(Made.size()) { All.insert(this); Made.push_back(this); }
  Thing(const Thing &F) : Text(F.Text), Number(Made.size()) { F.check(); All.insert(this); Made.push_back(this); }
  Thing &operator=(const Thing &F) { check(); F.check(); Text = F.Text; return *this; }
  ~Thing() { check(); All.erase(this); Made[Number] = nullptr; }
  void check() const { if (!All.count(this)) { std::cerr << "Assertion failed: an object is used that does not exist\n"; std::abort(); } }
  int get() const { check(); return std::stoi(Text); }
  void set(int V) { check(); Text = std::to_string(V); }
  std::string Text;
  std::size_t Number;
};

template<class D> struct Run {
  using W = IObject<D, Utility::True>;
  using S = IObject<D, Utility::False>;
  static constexpr bool Dynamic = std::is_pointer<D>::value;
  std::deque<std::unique_ptr<W>> Ws;
  std::deque<std::unique_ptr<S>> Ss;

  Run(int NW, int NS) {
    Made.clear();
    for (int I = 0; I < NW; ++I) Ws.emplace_back(new W());
    for (int I = 0; I < NS; ++I) Ss.emplace_back(new S(S::New()));
  }
  bool weak(int K) const { return K <= int(Ws.size()); }
  std::unique_ptr<W> &w(int K) { return Ws[K - 1]; }
  std::unique_ptr<S> &s(int K) { return Ss[K - 1 - Ws.size()]; }
  void apply(const std::string &Op, int K, int V) {
    bool A = weak(K), B = weak(V);
    if (Op == "none") w(K).reset(new W());
    else if (Op == "new") { if (A) w(K).reset(new W(W::New())); else s(K).reset(new S(S::New())); }
    else if (Op == "make") {
      if (A && B) w(K).reset(new W(static_cast<const W &>(*w(V))));
      else if (A) w(K).reset(new W(static_cast<const S &>(*s(V))));
      else if (B) s(K).reset(new S(static_cast<const W &>(*w(V))));
      else s(K).reset(new S(static_cast<const S &>(*s(V))));
    } else if (Op == "set") {
      if (A && B) check(&(*w(K) = *w(V)) == w(K).get());
      else if (A) check(&(*w(K) = *s(V)) == w(K).get());
      else if (B) check(&(*s(K) = *w(V)) == s(K).get());
      else check(&(*s(K) = *s(V)) == s(K).get());
    } else if (Op == "delete") {
      if (A) W::Delete(*w(K));
      else { S::Delete(*s(K)); S::Delete(*s(K)); if (Dynamic) s(K).reset(new S(S::New())); }
    } else if (Op == "reset") w(K)->Reset();
    else if (Op == "put") {
      if (A) { if (V % 2) (*w(K))->set(V); else (**w(K)).set(V); }
      else if (V % 2) (*s(K))->set(V); else (**s(K)).set(V);
    } else { std::cerr << "bad operation " << Op << "\n"; std::exit(3); }
  }
  bool Same = true;
  void check(bool X) { Same = Same && X; }
  // 0: a static object; dynamic ones in the order of their creation
  template<class X> std::string seen(X &O) {
    if (!bool(O)) return "[false]";
    const X &C = O;
    Thing *P = &*O;
    check(O.operator->() == P && C.operator->() == P && &*C == P);
    static_assert(std::is_same<decltype(C.operator->()), const Thing *>::value, "");
    return "[true," + std::to_string(P->get()) + "," + std::to_string(Dynamic ? int(P->Number + 1) : 0) + "]";
  }
  std::string obs() {
    std::string R = "\"x\":[";
    for (auto &X : Ws) R += seen(*X) + ",";
    for (auto &X : Ss) R += seen(*X) + ",";
    R.pop_back();
    R += "]";
    if (Dynamic) {
      R += ",\"live\":[";
      for (std::size_t I = 0; I < Made.size(); ++I) R += (I ? "," : "") + std::to_string(Made[I] ? Made[I]->get() : -1);
      R += "]";
    }
    return R + ",\"same\":" + (Same ? "true" : "false");
  }
  // Nothing is destroyed twice, static objects go with their wrappers.
  bool finish() {
    Ws.clear();
    Ss.clear();
    if (!Dynamic) return All.empty();
    while (!All.empty()) delete const_cast<Thing *>(*All.begin());
    return true;
  }
};

template<class D> static void run(const std::string &Line, const std::string &Kind, int NW, int NS) {
  Run<D> R(NW, NS);
  std::istringstream In(Line);
  std::string Op, Sep;
  int K, V;
  std::vector<std::string> Ev;
  std::vector<std::string> Os, Ob;
  while (In >> Op >> K >> V >> Sep) {
    R.apply(Op, K, V);
    Os.push_back("{\"op\":\"" + Op + "\",\"k\":" + std::to_string(K) + ",\"v\":" + std::to_string(V) + "}");
    Ob.push_back(R.obs());
  }
  if (!R.finish()) { std::cerr << "Assertion failed: an object outlives its wrapper\n"; std::abort(); }
  std::cout << "[";
  for (std::size_t I = 0; I < Os.size(); ++I)
    std::cout << (I ? "," : "") << "{\"kind\":\"" << Kind << "\",\"nw\":" << NW << ",\"ns\":" << NS << ",\"o\":" << Os[I] << "," << Ob[I] << "}";
  std::cout << "]" << std::endl;
}

int main(int, char **Argv) {
  std::string Kind = Argv[1], Line;
  int NW = std::stoi(Argv[2]), NS = std::stoi(Argv[3]);
  while (std::getline(std::cin, Line))
    if (Kind == "static") run<Thing>(Line, Kind, NW, NS);
    else run<Thing *>(Line, Kind, NW, NS);
}
