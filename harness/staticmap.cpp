// Operations on bcl::StaticMap, StaticTypeMap and StaticTraitMap. The maps of all
// worlds are in world.h, generated. Input per line: the number of a world, then
// "op i j k v vs... ;" (one list of numbers per operation).
#include <bcl/cell.h>
#include <bcl/Json.h>
#include <bcl/trait.h>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <tuple>
using namespace std;
template<int N> struct Obj {
  int Id;
  static map<int, Obj *> &all() { static map<int, Obj *> M; return M; }
  explicit Obj(int I) : Id(I) { all()[I] = this; }
  ~Obj() { all().erase(Id); }
};
template<int N> struct Mov {
  int V = 0;
  Mov() = default;
  Mov(int X) : V(X) {}
  Mov(const Mov &M) = default;
  Mov &operator=(const Mov &M) = default;
  Mov(Mov &&M) : V(M.V) { M.V = -1; }
  Mov &operator=(Mov &&M) { int X = M.V; M.V = -1; V = X; return *this; }
};
// A collection in which a push is counted.
struct Cnt { int V = 0; Cnt() = default; Cnt(int X) : V(X) {} template<class T> void push_back(T *) { ++V; } };
template<int N> struct VT;
template<> struct VT<1> { typedef int T; };
template<> struct VT<2> { typedef long T; };
template<> struct VT<3> { typedef Mov<0> T; };
template<> struct VT<4> { typedef Mov<1> T; };
template<> struct VT<5> { typedef Obj<0> *T; };
template<> struct VT<6> { typedef Obj<0> *T; };
template<> struct VT<7> { typedef Mov<2> T; };
template<> struct VT<8> { typedef short T; };
template<> struct VT<9> { typedef Obj<0> *T; };
template<> struct VT<10> { typedef Mov<0> T; };
template<int N> struct K { typedef typename VT<N>::T ValueType; };
template<int N> struct Tr { static std::string name() { return "t" + to_string(N); } };

static int enc(short V) { return V; }
static int enc(int V) { return V; }
static int enc(long V) { return V; }
template<int N> static int enc(const Mov<N> &M) { return M.V; }
static int enc(const Cnt &M) { return M.V; }
template<int N> static int enc(Obj<N> *P) { return P ? P->Id : 0; }
static void put(short &D, int V) { D = short(V); }
static void put(int &D, int V) { D = V; }
static void put(long &D, int V) { D = V; }
template<int N> static void put(Mov<N> &D, int V) { Mov<N> M(V); D = M; }
static void put(Cnt &D, int V) { D.V = V; }
template<int N> static void put(Obj<N> *&D, int V) {
  if (!V) { D = nullptr; return; }
  auto I = Obj<N>::all().find(V);
  D = I != Obj<N>::all().end() ? I->second : new Obj<N>(V);
}
template<class T> static void twice(T &D) {
  if constexpr (!is_pointer<T>::value) { int V = enc(D); if (V >= 0) put(D, 2 * V % 1000); }
}
template<class T> static T make(int V) {
  if constexpr (is_pointer<T>::value) { T P; put(P, V); return P; } else return T(V);
}
typedef vector<pair<int, int>> Seen;
static string str(const Seen &S) {
  string R = "[";
  for (auto &P : S) R += (R.size() > 1 ? ",[" : "[") + to_string(P.first) + "," + to_string(P.second) + "]";
  return R + "]";
}
static string str(const vector<int> &S) {
  string R = "[";
  for (int P : S) R += (R.size() > 1 ? "," : "") + to_string(P);
  return R + "]";
}
template<class T> struct KeyNo;
template<int N> struct KeyNo<K<N>> { static constexpr int value = N; };
template<int N> struct KeyNo<Tr<N>> { static constexpr int value = N; };
template<class T> struct TypeNo;
template<> struct TypeNo<int> { static constexpr int value = 1; };
template<> struct TypeNo<long> { static constexpr int value = 2; };
template<> struct TypeNo<Mov<0>> { static constexpr int value = 3; };
template<> struct TypeNo<Mov<1>> { static constexpr int value = 4; };
template<> struct TypeNo<Obj<0> *> { static constexpr int value = 5; };
template<> struct TypeNo<Mov<2>> { static constexpr int value = 7; };
template<> struct TypeNo<short> { static constexpr int value = 8; };

struct Op { string N; int I, J, K, V; vector<int> Vs; };

// How the functions of an ordinary map are called.
#define HOOKS \
  template<class M_, class F> static void each(M_ &M, F &&X) { M.for_each(std::forward<F>(X)); } \
  template<class F> static void keys(F &&X) { T::for_each_key(std::forward<F>(X)); } \
  static T *fresh() { return new T(); }
// bcl::StaticMap
template<int... Ks> struct SM {
  typedef bcl::StaticMap<K<Ks>...> T;
  static const bool Ordered = true;
  struct Each {
    Seen *S; int N = 0;
    template<class C> void operator()(C *X) {
      typedef typename C::CellKey Key;
      ++N; S->push_back({KeyNo<Key>::value, enc(X->template value<Key>())});
    }
  };
  struct EachKey { vector<int> *S; int N = 0; template<class C> void operator()() { ++N; S->push_back(KeyNo<typename C::CellKey>::value); } };
  struct Twice { template<class C> void operator()(C *X) { twice(X->template value<typename C::CellKey>()); } };
  template<int N> static auto &val(T &M) { if constexpr (N % 2) return M.template value<K<N>>(); else return M[K<N>()]; }
  template<int N> static auto &cval(const T &M, bool A) { if (A) return M.template value<K<N>>(); else return M[K<N>()]; }
  template<size_t... Is> static T *ctor(const vector<int> &V, index_sequence<Is...>) {
    if constexpr (sizeof...(Is) == 0) return new T(); else return new T(make<typename VT<Ks>::T>(V[Is])...);
  }
  HOOKS
};
// bcl::StaticTypeMap
template<int... Ks> struct TM {
  typedef bcl::StaticTypeMap<typename VT<Ks>::T...> T;
  static const bool Ordered = false;
  struct Each { Seen *S; int N = 0; template<class V> void operator()(V &X) { ++N; S->push_back({TypeNo<typename remove_const<V>::type>::value, enc(X)}); } };
  struct EachKey { vector<int> *S; int N = 0; template<class V> void operator()() { ++N; S->push_back(TypeNo<V>::value); } };
  struct Twice { template<class V> void operator()(V &X) { twice(X); } };
  template<int N> static auto &val(T &M) { typedef typename VT<N>::T Y; if constexpr (N % 2) return M.template value<Y>(); else return M[Y()]; }
  template<int N> static auto &cval(const T &M, bool A) { typedef typename VT<N>::T Y; if (A) return M.template value<Y>(); else return M[Y()]; }
  HOOKS
};
// bcl::StaticTraitMap
template<class V, class D, int... Ks> struct RM {
  typedef bcl::StaticTraitMap<V, D> T;
  typedef D Descr;
  typedef V Value;
  static const bool Ordered = false;
  struct Each { Seen *S; int N = 0; template<class C, class Y> void operator()(Y &X) { ++N; S->push_back({KeyNo<C>::value, enc(X)}); } };
  struct EachKey { vector<int> *S; int N = 0; template<class C> void operator()() { ++N; S->push_back(KeyNo<C>::value); } };
  struct Twice { template<class C> void operator()(V &X) { twice(X); } };
  template<int N> static auto &val(T &M) { if constexpr (N % 2) return M.template value<Tr<N>>(); else return M[Tr<N>()]; }
  template<int N> static auto &cval(const T &M, bool A) { if (A) return M.template value<Tr<N>>(); else return M[Tr<N>()]; }
  HOOKS
};
template<class A> struct IsLM : false_type {};
#ifdef BCL_LEGACY
// Base::Cell
template<int... Ks> struct LM {
  template<int... Ns> struct Chain { typedef Utility::Null Type; };
  template<int N, int... Ns> struct Chain<N, Ns...> { typedef Base::Cell<K<N>, typename Chain<Ns...>::Type> Type; };
  typedef typename Chain<Ks...>::Type T;
  static const bool Ordered = true;
  struct Each {
    Seen *S; int N = 0;
    template<class C> void operator()(C *X) {
      typedef typename C::CellId Key;
      ++N; S->push_back({KeyNo<Key>::value, enc(X->template Value<Key>())});
    }
  };
  struct EachKey { vector<int> *S; int N = 0; template<class C> void operator()() { ++N; S->push_back(KeyNo<typename C::CellId>::value); } };
  struct Twice { template<class C> void operator()(C *X) { twice(X->template Value<typename C::CellId>()); } };
  template<int N> static auto &val(T &M) { if constexpr (N % 2) return M.template Value<K<N>>(); else return M[K<N>()]; }
  template<int N> static auto &cval(const T &M, bool A) { if (A) return M.template Value<K<N>>(); else return M[K<N>()]; }
  template<class M_, class F> static void each(M_ &M, F &&X) { M.Foreach(X); }
  template<class F> static void keys(F &&X) { T::ForeachDefinition(X); }
  static T *fresh() { return new T(); }
};
template<int... Ks> struct IsLM<LM<Ks...>> : true_type {};
// Base::Node: a tree in which every subtree has a root of its own, and its keys.
template<class N_, int... Ks> struct NM {
  typedef N_ T;
  static const bool Ordered = false;
  struct Each {
    Seen *S; int N = 0;
    template<class C> void operator()(C &X) { ++N; S->push_back({KeyNo<typename C::Id>::value, enc(X.template Value<typename C::Id>())}); }
  };
  struct EachKey { vector<int> *S; int N = 0; template<class C> void operator()(C &) { ++N; S->push_back(KeyNo<typename C::Id>::value); } };
  struct Twice { template<class C> void operator()(C &X) { twice(X.template Value<typename C::Id>()); } };
  template<int N> static auto &val(T &M) { if constexpr (N % 2) return M.template Value<K<N>>(); else return M[K<N>()]; }
  template<int N> static auto &cval(const T &M, bool A) { if (A) return M.template Value<K<N>>(); else return M[K<N>()]; }
  template<class M_, class F> static void each(M_ &M, F &&X) { Base::Visit(M, X); }
  template<class F> static void keys(F &&X) { unique_ptr<T> M(fresh()); each(*M, X); }
  template<class M_> static M_ build() {
    if constexpr (is_same<M_, Utility::Null>::value) return Utility::Null();
    else return M_(make<typename M_::ValueType>(0), build<typename M_::Left>(), build<typename M_::Right>());
  }
  static T *fresh() { return new T(build<T>()); }
  // values of the keys, in the order of the tree
  template<class M_> static M_ build(const vector<int> &V, size_t &I) {
    if constexpr (is_same<M_, Utility::Null>::value) return Utility::Null();
    else {
      auto X = make<typename M_::ValueType>(V[I++]);
      auto L = build<typename M_::Left>(V, I);
      return M_(X, L, build<typename M_::Right>(V, I));
    }
  }
  template<size_t... Is> static T *ctor(const vector<int> &V, index_sequence<Is...>) { size_t I = 0; return new T(build<T>(V, I)); }
  // Whether a tree can be made of another one.
  template<class A_, class B_> static constexpr bool like() {
    if constexpr (is_same<A_, Utility::Null>::value || is_same<B_, Utility::Null>::value) return is_same<A_, B_>::value;
    else return is_convertible<typename B_::ValueType, typename A_::ValueType>::value &&
      like<typename A_::Left, typename B_::Left>() && like<typename A_::Right, typename B_::Right>();
  }
};
template<class A> struct IsNM : false_type {};
template<class N, int... Ks> struct IsNM<NM<N, Ks...>> : true_type {};
#endif
template<class A> struct IsSM : false_type {};
template<int... Ks> struct IsSM<SM<Ks...>> : true_type {};
template<class A> struct IsRM : false_type {};
template<class V, class D, int... Ks> struct IsRM<RM<V, D, Ks...>> : true_type {};
template<class A> struct KeyList;
template<int... Ks> struct KeyList<SM<Ks...>> { typedef integer_sequence<int, Ks...> T; };
template<int... Ks> struct KeyList<TM<Ks...>> { typedef integer_sequence<int, Ks...> T; };
template<class V, class D, int... Ks> struct KeyList<RM<V, D, Ks...>> { typedef integer_sequence<int, Ks...> T; };
#ifdef BCL_LEGACY
template<int... Ks> struct KeyList<LM<Ks...>> { typedef integer_sequence<int, Ks...> T; };
template<class N, int... Ks> struct KeyList<NM<N, Ks...>> { typedef integer_sequence<int, Ks...> T; };
#endif

template<class... As> struct World {
  typedef tuple<unique_ptr<typename As::T>...> Maps;
  Maps M;
  template<size_t I> using A = typename tuple_element<I, tuple<As...>>::type;
  // Calls F(integral constant) for index I.
  template<class F, size_t... Is> static void pick(int I, F &&X, index_sequence<Is...>) {
    ((I == int(Is) + 1 ? (void)X(integral_constant<size_t, Is>()) : (void)0), ...);
  }
  template<class F> static void at(int I, F &&X) { pick(I, X, index_sequence_for<As...>()); }
  template<class X, int... Ks> static void set(typename X::T &D, int Key, int V, integer_sequence<int, Ks...>) {
    ((Key == Ks ? put(X::template val<Ks>(D), V) : (void)0), ...);
  }
  template<class X, int... Ks> static Seen get(typename X::T &D, integer_sequence<int, Ks...>) {
    Seen S;
    ((S.push_back({Ks, enc(X::template val<Ks>(D))})), ...);
    return S;
  }
  template<class X, int... Ks> static Seen cget(const typename X::T &D, bool B, integer_sequence<int, Ks...>) {
    Seen S;
    // the value itself is returned, not a copy of it
    ((S.push_back({Ks, &X::template cval<Ks>(D, B) == &X::template val<Ks>(const_cast<typename X::T &>(D)) ?
       enc(X::template cval<Ks>(D, B)) : -8})), ...);
    return S;
  }
  template<class X, int... Ks> static typename X::T *ctor(const vector<int> &V, integer_sequence<int, Ks...>) {
    return X::ctor(V, make_index_sequence<sizeof...(Ks)>());
  }
  template<class X, class TS, int... Ks> static void select(TS &S, const vector<int> &Vs, integer_sequence<int, Ks...>) {
    for (int V : Vs) ((V == Ks ? (void)S.template set<Tr<Ks>>() : (void)0), ...);
  }
  World() { at(1, [](auto) {}); init(index_sequence_for<As...>()); }
  template<size_t... Is> void init(index_sequence<Is...>) { ((std::get<Is>(M).reset(A<Is>::fresh())), ...); }
  void run(const Op &O) {
    at(O.I, [&](auto I) {
      typedef A<I> X;
      typedef typename KeyList<X>::T Ks;
      auto &P = std::get<I>(M);
      auto &D = *P;
      if (O.N == "set") set<X>(D, O.K, O.V, Ks());
      else if (O.N == "new") P.reset(X::fresh());
      else if (O.N == "twice") { if (O.V % 2) { typename X::Twice F; X::each(D, F); } else X::each(D, typename X::Twice()); }
      else if constexpr (IsSM<X>::value) {
        if (O.N == "ctor") P.reset(ctor<X>(O.Vs, Ks()));
        else if (O.N == "clear") { D.for_each(bcl::ClearCellFunctor()); D.for_each(bcl::InitCellFunctor()); }
        else if (O.N == "init") D.for_each(bcl::InitCellFunctor());
      }
#ifdef BCL_LEGACY
      if constexpr (IsNM<X>::value) { if (O.N == "ctor") P.reset(ctor<X>(O.Vs, Ks())); }
      if constexpr (IsLM<X>::value) {
        Base::ClearCellFunctor CF;
        Base::InitCellFunctor IF;
        if (O.N == "clear") D.Foreach(CF);
        if (O.N == "clear" || O.N == "init") D.Foreach(IF);
      }
#endif
      if constexpr (IsRM<X>::value) {
        if (O.N == "count") {
          typedef bcl::TraitSet<typename X::Descr, map<bcl::TraitKey, void *>> TS;
          TS S;
          select<X>(S, O.Vs, Ks());
          if constexpr (is_same<typename X::Value, Cnt>::value) {
            bcl::TraitMapConstructor<TS, typename X::T> C(S, D);
            S.for_each(C);
            if (&C.getTraitMap() != &D || &C.getTraitSet() != &S) exit(5);
          } else if constexpr (is_same<typename X::Value, int>::value)
            S.for_each(bcl::TraitMapConstructor<TS, typename X::T, bcl::CountInserter>(S, D));
        }
      }
      at(O.J, [&](auto J) {
        typedef A<J> Y;
        auto &Q = std::get<J>(M);
        auto &E = *Q;
        if constexpr (is_same<typename X::T, typename Y::T>::value) {
          if (O.N == "copy") { if (O.V % 2) P.reset(new typename X::T(E)); else D = E; }
          else if (O.N == "move") { if (O.V % 2) P.reset(new typename X::T(std::move(E))); else D = std::move(E); }
        }
        if constexpr (IsSM<X>::value && IsSM<Y>::value) {
          if (O.N == "copyto") D.for_each(bcl::CopyToCellFunctor<typename Y::T>(&E));
          else if (O.N == "copyfrom") { const auto &CE = E; CE.for_each(bcl::CopyFromCellFunctor<typename X::T>(&D)); }
          else if (O.N == "moveto") D.for_each(bcl::MoveToCellFunctor<typename Y::T>(&E));
          else if (O.N == "movefrom") E.for_each(bcl::MoveFromCellFunctor<typename X::T>(&D));
        }
#ifdef BCL_LEGACY
        if constexpr (IsNM<X>::value && IsNM<Y>::value)
          if constexpr (X::template like<typename X::T, typename Y::T>()) {
            if (O.N == "conv") P.reset(new typename X::T(const_cast<const typename Y::T &>(E)));
          }
        if constexpr (IsLM<X>::value && IsLM<Y>::value) {
          Base::CopyToCellFunctor<typename Y::T> To(&E);
          Base::CopyFromCellFunctor<typename X::T> From(&D);
          const auto &CE = E;
          if (O.N == "copyto") D.Foreach(To);
          else if (O.N == "copyfrom") CE.Foreach(From);
        }
#endif
        if constexpr (IsRM<X>::value && is_same<X, Y>::value) {
          if constexpr (is_same<typename X::Value, int>::value)
            if (O.N == "json") {
              string S = json::Parser<>::unparse(E);
              json::Parser<> R(S);
              auto Z = make_unique<typename X::T>();
              if (!R.parse(*Z)) exit(6);
              P = std::move(Z);
            }
        }
      });
    });
  }
  string obs(bool B) {
    string R = "\"d\":[";
    for (int N = 1; N <= int(sizeof...(As)); ++N) at(N, [&](auto I) {
      typedef A<I> X;
      typedef typename KeyList<X>::T Ks;
      auto &D = *std::get<I>(M);
      const auto &CD = D;
      Seen E, CE;
      vector<int> EK;
      X::each(D, typename X::Each{&E});
      typename X::Each F{&CE};
      X::each(CD, F);
      // The function object itself is applied, not a copy of it.
      if (F.N != int(CE.size())) CE.push_back({-9, F.N});
      X::keys(typename X::EachKey{&EK});
      vector<int> EL;
      typename X::EachKey FK{&EL};
      X::keys(FK);
      if (FK.N != int(EL.size()) || EL != EK) EK.push_back(-9);
      Seen LE;
      typename X::Each FL{&LE};
      X::each(D, FL);
      if (FL.N != int(LE.size()) || LE != E) E.push_back({-9, FL.N});
      bool Empty = false;
      if constexpr (IsSM<X>::value) Empty = X::T::empty();
      R += string(N > 1 ? "," : "") + "{\"get\":" + str(get<X>(D, Ks())) + ",\"cget\":" + str(cget<X>(CD, B, Ks())) +
        ",\"each\":" + str(E) + ",\"ceach\":" + str(CE) + ",\"keys\":" + str(EK) + ",\"empty\":" + (Empty ? "true" : "false") + "}";
    });
    R += "],\"live\":[";
    bool First = true;
    for (auto &P : Obj<0>::all()) { R += (First ? "" : ",") + to_string(P.first); First = false; }
    return R + "]";
  }
};
template<class W> static void test(istream &In) {
  W X;
  cout << '[';
  Op O;
  int Step = 0;
  while (In >> O.N >> O.I >> O.J >> O.K >> O.V) {
    O.Vs.clear();
    string H;
    while (In >> H && H != ";") O.Vs.push_back(stoi(H));
    Op P = O;
    if (O.N == "copy" || O.N == "move" || O.N == "twice") P.V = Step;
    X.run(P);
    cout << (Step++ ? "," : "") << "{\"o\":{\"op\":\"" << O.N << "\",\"i\":" << O.I << ",\"j\":" << O.J << ",\"k\":" << O.K
         << ",\"v\":" << O.V << ",\"vs\":" << str(O.Vs) << "}," << X.obs(Step % 2) << "}";
  }
  cout << "]" << endl;
  while (!Obj<0>::all().empty()) delete Obj<0>::all().begin()->second;
}
#include "world.h"
int main() {
  string Line;
  while (getline(cin, Line)) {
    istringstream In(Line);
    int N;
    In >> N;
    dispatch(N, In);
  }
}
