// Executes operation sequences on bcl::TraitDescriptor and bcl::TraitSet for the
// layout given by the macros LAYOUT and SMALL (groups), NTRAITS, TUPLES (lists of
// several traits, as std::integer_sequence types) and the JSON text HEADER. Input: one test per line, "op i j v t1 t2 ... ; ...". Output: one JSON
// array of events per line, the first of which describes the layout.
#include <bcl/trait.h>
#include <iostream>
#include <map>
#include <sstream>
#include <tuple>
#include <vector>

static long Live = 0;
template<int I> struct Tr : public bcl::TraitBase<I> {
  static constexpr int N = I;
  int Id = 0;
  Tr() { ++Live; }
  Tr(int Id) : Id(Id) { ++Live; }
  Tr(const Tr &) = delete;
  ~Tr() { --Live; }
};
template<int I> struct Data {
  int Id = 0;
  std::vector<int> Pad = {1, 2, 3};
  Data(int Id) : Id(Id) { ++Live; }
  Data(const Data &) = delete;
  ~Data() { --Live; }
};
using namespace bcl;
using D = TraitDescriptor<LAYOUT>;
using E = TraitDescriptor<SMALL>;
// even traits are described by separate types
using ES = TraitSet<E, std::map<TraitKey, void *>>;
using Tagged = TypeList<tagged<Data<2>, Tr<2>>, tagged<Data<4>, Tr<4>>, tagged<Data<6>, Tr<6>>>;
using S = TraitSet<D, std::map<TraitKey, void *>, Tagged>;

template<class F, size_t... I> static void withImp(int T, F &&Fn, std::index_sequence<I...>) {
  ((T == int(I) + 1 ? (Fn(std::integral_constant<int, int(I) + 1>{}), 0) : 0), ...);
}
template<class F> static void with(int T, F &&Fn) { withImp(T, Fn, std::make_index_sequence<NTRAITS>{}); }
#define W(X) Tr<decltype(X)::value>

// Calls Fn with the list of traits (several of them: one of the lists TUPLES).
template<class... T> struct List { using Type = TypeList<T...>; };
template<int... I> static bool same(const std::vector<int> &T, std::integer_sequence<int, I...>) {
  return T == std::vector<int>{I...};
}
template<int... I> static List<Tr<I>...> toList(std::integer_sequence<int, I...>) { return {}; }
template<class F, class... Seq> static bool tuples(F &&Fn, std::tuple<Seq...>) {
  return (Fn(Seq{}) || ...);
}
template<class F> static void withList(const std::vector<int> &T, F &&Fn) {
  bool Found = T.size() == 1;
  if (Found) with(T[0], [&](auto I) { Fn(List<W(I)>{}); });
  else
    Found = tuples([&](auto Seq) {
      if (!same(T, Seq)) return false;
      Fn(toList(Seq));
      return true;
    }, std::tuple<TUPLES>{});
  if (!Found) { std::cerr << "unknown list of traits\n"; std::exit(3); }
}
// Traits of a list as arguments of a template.
template<class... T> struct Ops {
  template<class X> static void set(X &Q) { Q.template set<T...>(); }
  template<class X> static void unset(X &Q) { Q.template unset<T...>(); }
  template<class X> static void unsetGroup(X &Q) { Q.template unset_group<T...>(); }
  template<class X> static void setFree(X &Q) { trait::set<T...>(Q); }
  template<class X> static void unsetFree(X &Q) { trait::unset<T...>(Q); }
  template<class X> static bool is(const X &Q) { return Q.template is<T...>(); }
  template<class X> static void printKey(std::ostream &Q) { X::template printKey<T...>(Q); }
  template<class X> static void printMask(std::ostream &Q) { X::template printMask<T...>(Q); }
  template<class X> static bool isAny(const X &Q) { return Q.template is_any<T...>(); }
};
template<class... T> static Ops<T...> ops(List<T...>) { return {}; }

// Counts its calls, so that it matters whether it is applied itself or a copy of it.
struct Collect {
  std::vector<int> *Out;
  int Calls = 0;
  template<class T> void operator()() {
    Out->push_back(T::N);
    if (++Calls != int(Out->size())) Out->push_back(-9);
  }
};
static std::string list(const std::vector<int> &V) {
  std::string R = "[";
  for (size_t I = 0; I < V.size(); ++I) R += (I ? "," : "") + std::to_string(V[I]);
  return R + "]";
}
static std::vector<int> bits(const std::string &X) {
  std::vector<int> R;
  if (X.size() != 64) R.push_back(-int(X.size()));
  for (size_t I = 0; I < X.size(); ++I) if (X[I] == '1') R.push_back(int(I) + 1);
  return R;
}
static const char *B(bool X) { return X ? "true" : "false"; }

template<class X> static std::string descr(const X &Q) {
  std::ostringstream O;
  std::vector<int> V;
  Q.for_each(Collect{&V});
  std::vector<int> VL;
  Collect L{&VL};
  Q.for_each(L);
  if (L.Calls != int(VL.size()) || V != VL) V.push_back(-9);
  O << "{\"each\":" << list(V) << ",\"is\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) { O << (T > 1 ? "," : "") << B(Q.template is<W(I)>()); });
  O << "],\"conf\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) {
      std::vector<int> C;
      if (V.size() % 2) Q.template for_each_conflict<W(I)>(Collect{&C});
      else {
        Collect F{&C};
        Q.template for_each_conflict<W(I)>(F);
        if (F.Calls != int(C.size())) C.push_back(-9);
      }
      O << (T > 1 ? "," : "") << list(C);
    });
  O << "],\"grp\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) {
      std::vector<int> C;
      Collect F{&C};
      Q.template for_each_in_group<W(I)>(F);
      if (F.Calls != int(C.size())) C.push_back(-9);
      std::vector<int> CT;
      Q.template for_each_in_group<W(I)>(Collect{&CT});
      if (CT != C) C.push_back(-9);
      O << (T > 1 ? "," : "") << list(C);
    });
  for (int Any = 0; Any < 2; ++Any) {
    O << (Any ? "],\"any\":[" : "],\"all\":[");
    int K = 0;
    tuples([&](auto Seq) {
      using TL = decltype(toList(Seq));
      auto Op = ops(TL{});
      bool R = Any ? Op.isAny(Q) : Op.is(Q);
      bool Free = Any ? ForwardTypeList<trait::IsAny, typename TL::Type>::Type::is_any(Q)
                      : ForwardTypeList<trait::Is, typename TL::Type>::Type::is(Q);
      O << (K++ ? "," : "") << (R == Free ? B(R) : "2");
      return false;
    }, std::tuple<TUPLES>{});
  }
  std::ostringstream P;
  Q.print(P);
  O << "],\"bits\":" << list(bits(P.str())) << "}";
  return O.str();
}
template<int... I> static std::string seqText(std::integer_sequence<int, I...>) { return list({I...}); }
static std::string header(int ND, int NS) {
  std::ostringstream O;
  O << "{" << HEADER << ",\"nd\":" << ND << ",\"ns\":" << NS << ",\"keys\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) { std::ostringstream P; D::template printKey<W(I)>(P); O << (T > 1 ? "," : "") << list(bits(P.str())); });
  O << "],\"masks\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) { std::ostringstream P; D::template printMask<W(I)>(P); O << (T > 1 ? "," : "") << list(bits(P.str())); });
  O << "],\"lists\":[" << "";
  int K = 0;
  tuples([&](auto Seq) { O << (K++ ? "," : "") << seqText(Seq); return false; }, std::tuple<TUPLES>{});
  for (int M = 0; M < 2; ++M) {
    O << (M ? "],\"lmasks\":[" : "],\"lkeys\":[");
    K = 0;
    tuples([&](auto Seq) {
      std::ostringstream P;
      auto Op = ops(toList(Seq));
      M ? Op.template printMask<D>(P) : Op.template printKey<D>(P);
      O << (K++ ? "," : "") << list(bits(P.str()));
      return false;
    }, std::tuple<TUPLES>{});
  }
  std::vector<int> Av1, Av2, Av3, AvE;
  Collect F1{&Av1}, F2{&Av2};
  D::for_each_available(F1);
  S::for_each_available(F2);
  D::for_each_available(Collect{&Av3});
  ES::for_each_available(Collect{&AvE});
  if (F1.Calls != int(Av1.size()) || F2.Calls != int(Av2.size())) Av1.push_back(-9);
  O << "],\"avail\":[" << list(Av1) << "," << list(Av2) << "," << list(Av3) << "],\"availe\":" << list(AvE);
  O << ",\"known\":[";
  for (int T = 1; T <= NTRAITS; ++T)
    with(T, [&](auto I) {
      using A = W(I);
      O << (T > 1 ? ",[" : "[") << B(trait::is_contained<A, D>::value && trait::is_contained<A, S>::value) << ","
        << B(trait::is_contained<A, E>::value || trait::is_contained<A, ES>::value) << "]";
    });
  O << "],\"conf\":[";
  for (int T = 1; T <= NTRAITS; ++T) {
    O << (T > 1 ? ",[" : "[");
    for (int U = 1; U <= NTRAITS && U <= 20; ++U)
      with(T, [&](auto I) { withImp(U, [&](auto J) {
        using A = W(I);
        using C = W(J);
        constexpr bool R = trait::is_conflict<A, C, D>::value;
        static_assert(R == trait::is_conflict<A, C, S>::value && R == trait::is_conflict<A, C, LAYOUT>::value, "");
        O << (U > 1 ? "," : "") << B(R);
      }, std::make_index_sequence<(NTRAITS < 20 ? NTRAITS : 20)>{}); });
    O << "]";
  }
  O << "]}";
  return O.str();
}

template<class X> static void setT(X &Q, const std::vector<int> &T, bool Free) {
  withList(T, [&](auto L) { Free ? ops(L).setFree(Q) : ops(L).set(Q); });
}
template<class X> static void unsetT(X &Q, const std::vector<int> &T, bool Free) {
  withList(T, [&](auto L) { Free ? ops(L).unsetFree(Q) : ops(L).unset(Q); });
}
template<class T> static T *make(int Id, int) { return new T(Id); }

int main(int Argc, char **Argv) {
  const int ND = std::atoi(Argv[1]), NS = std::atoi(Argv[2]);
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::cout << "[" << header(ND, NS);
    {
      std::vector<D> Ds(ND);
      E Small;
      std::vector<std::unique_ptr<S>> Ss;
      for (int I = 0; I < NS; ++I) Ss.push_back(std::unique_ptr<S>(new S));
      std::istringstream In(Line);
      std::string Op;
      while (In >> Op) {
        int I, J, V, X;
        std::string Tok;
        std::vector<int> T;
        In >> I >> J >> V;
        while (In >> Tok && Tok != ";") T.push_back(std::stoi(Tok));
        int R = 0;
        auto d = [&](int K) -> D & { return Ds[K - 1]; };
        auto s = [&](int K) -> S & { return *Ss[K - 1]; };
        (void)X;
        if (Op == "dset") setT(d(I), T, V % 2);
        else if (Op == "dunset") unsetT(d(I), T, V % 2);
        else if (Op == "dunsetgrp") withList(T, [&](auto L) { ops(L).unsetGroup(d(I)); });
        else if (Op == "dunsete") { if (V % 2) trait::unset<E>(d(I)); else trait::unset<ES>(d(I)); }
        else if (Op == "sunsete") { if (V % 2) trait::unset<E>(s(I)); else trait::unset<ES>(s(I)); }
        else if (Op == "dsete") { if (V % 2) trait::set<E>(d(I)); else trait::set<ES>(d(I)); }
        else if (Op == "setss") trait::set(s(I), s(J));
        else if (Op == "updss") trait::update(s(I), s(J));
        else if (Op == "setes") trait::set(Small, s(I));
        else if (Op == "updes") trait::update(Small, s(I));
        else if (Op == "setse") trait::set(s(I), Small);
        else if (Op == "updse") trait::update(s(I), Small);
        else if (Op == "dunsetall") d(I).unset_all();
        else if (Op == "dcopy") d(I) = d(J);
        else if (Op == "dget") { if (V % 2) d(I) = s(J).get(); else d(I) = static_cast<const S &>(s(J)); }
        else if (Op == "eset" || Op == "eunset")
          with(T[0], [&](auto A) {
            if constexpr (trait::is_contained<W(A), E>::value) {
              if (Op == "eset") trait::set<W(A)>(Small); else trait::unset<W(A)>(Small);
            }
          });
        else if (Op == "setde") trait::set(d(I), Small);
        else if (Op == "updde") trait::update(d(I), Small);
        else if (Op == "seted") trait::set(Small, d(I));
        else if (Op == "upded") trait::update(Small, d(I));
        else if (Op == "setds") trait::set(d(I), s(J));
        else if (Op == "updds") trait::update(d(I), s(J));
        else if (Op == "upsd") trait::update(s(J), d(I));
        else if (Op == "sset") setT(s(I), T, V % 2);
        else if (Op == "sunset") unsetT(s(I), T, V % 2);
        else if (Op == "sunsetall") s(I).unset_all();
        else if (Op == "snew") Ss[I - 1].reset(new S);
        else if (Op == "sdesc")
          with(T[0], [&](auto A) {
            using Ty = typename std::remove_pointer<decltype(s(I).template get<W(A)>())>::type;
            s(I).template set<W(A)>(make<Ty>(V, 0));
          });
        else if (Op == "snull")
          with(T[0], [&](auto A) {
            using Ty = typename std::remove_pointer<decltype(s(I).template get<W(A)>())>::type;
            s(I).template set<W(A)>(static_cast<Ty *>(nullptr));
          });
        else if (Op == "sself")
          with(T[0], [&](auto A) {
            if (auto *P = s(I).template get<W(A)>()) s(I).template set<W(A)>(P);
            else s(I).template set<W(A)>();
          });
        else if (Op == "srelease")
          with(T[0], [&](auto A) {
            auto *P = s(I).template release<W(A)>();
            R = P ? P->Id : 0;
            delete P;
          });
        else if (Op == "sassign") { if (V % 2) s(I) = d(J); else s(I) = D(d(J)); }
        else if (Op == "sctor") { if (V % 2) Ss[I - 1].reset(new S(d(J))); else Ss[I - 1].reset(new S(D(d(J)))); }
        else if (Op == "smove") {
          S &Src = s(J);
          s(I) = std::move(Src);
          if (I != J) Ss[J - 1].reset(new S);
        }
        else if (Op == "smovector") {
          std::unique_ptr<S> P(new S(std::move(s(J))));
          Ss[J - 1].reset(new S);
          Ss[I - 1] = std::move(P);
        }
        else if (Op != "look") { std::cerr << "bad op " << Op << "\n"; return 3; }
        std::ostringstream O;
        O << ",{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"v\":" << V << ",\"ts\":" << list(T)
          << "},\"r\":" << R << ",\"obs\":{\"d\":[";
        for (int K = 1; K <= ND; ++K) O << (K > 1 ? "," : "") << descr(d(K));
        O << "],\"eq\":[";
        for (int K = 1; K <= ND; ++K) {
          O << (K > 1 ? ",[" : "[");
          for (int M = 1; M <= ND; ++M) {
            bool Eq = d(K) == d(M);
            O << (M > 1 ? "," : "") << ((d(K) != d(M)) == !Eq ? B(Eq) : "2");
          }
          O << "]";
        }
        std::vector<int> Es;
        Small.for_each(Collect{&Es});
        O << "],\"e\":" << list(Es) << ",\"s\":[";
        for (int K = 1; K <= NS; ++K) {
          std::vector<int> Desc;
          for (int Q = 1; Q <= NTRAITS; ++Q)
            with(Q, [&](auto A) {
              auto *P = s(K).template get<W(A)>();
              auto *C = static_cast<const S &>(s(K)).template get<W(A)>();
              Desc.push_back(P != C ? -1 : P ? P->Id : 0);
            });
          O << (K > 1 ? "," : "") << "{\"d\":" << descr(s(K)) << ",\"ds\":" << list(Desc) << "}";
        }
        O << "],\"live\":" << Live << "}}";
        std::cout << O.str();
      }
    }
    if (Live != 0) { std::cerr << "descriptions left after destruction: " << Live << "\n"; return 4; }
    std::cout << "]" << std::endl;
  }
}
