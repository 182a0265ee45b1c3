// Operations on tagged pairs and tuples; the worlds are in "world.h".
#include <bcl/tagged.h>
#include <bcl/tuple_utils.h>
#include <bcl/convertible_pair.h>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using std::string;

constexpr int NT = 10;
template<int N> struct Tag {};
template<int N> using Int = std::integral_constant<int, N>;

// Values of three kinds.
template<int K> struct Val { long V = 0; Val() = default; Val(long X) : V(X) {} };
template<int K> struct Mov {
  std::unique_ptr<long> P;
  Mov() = default;
  Mov(long X) : P(new long(X)) {}
  Mov(Mov &&) = default;
  Mov &operator=(Mov &&) = default;
};
template<int K> struct Str {
  string S;
  Str() = default;
  Str(long X) : S(std::to_string(X) + string(40, ' ')) {}
  Str(const Str &) = default;
  Str &operator=(const Str &) = default;
  Str(Str &&F) : S(std::move(F.S)) { F.S.clear(); }
  Str &operator=(Str &&F) { if (this != &F) { S = std::move(F.S); F.S.clear(); } return *this; }
};
template<int K> bool operator==(const Val<K> &A, const Val<K> &B) { return A.V == B.V; }
template<int K> bool operator==(const Str<K> &A, const Str<K> &B) { return A.S == B.S; }
template<int K> long num(const Val<K> &X) { return X.V; }
template<int K> long num(const Mov<K> &X) { return X.P ? *X.P : 0; }
template<int K> long num(const Str<K> &X) { return X.S.empty() ? 0 : std::stol(X.S); }
template<class T> struct Kind;
template<int K> struct Kind<Val<K>> { static string name() { return "val"; } enum { copy = 1 }; };
template<int K> struct Kind<Mov<K>> { static string name() { return "mov"; } enum { copy = 0 }; };
template<int K> struct Kind<Str<K>> { static string name() { return "str"; } enum { copy = 1 }; };
template<class T> struct IdOf;
template<int N> struct IdOf<Tag<N>> { enum { value = N }; };
using L = std::vector<long>;
template<class... Ts> L tagIds(bcl::TypeList<Ts...> *) { return L{long(IdOf<Ts>::value)...}; }

static string list(const L &X) {
  string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + std::to_string(X[I]);
  return S + "]";
}
static const char *B(bool X) { return X ? "true" : "false"; }

template<class... Els> struct List {};
template<class E> using TyOf = typename E::type;

// What the objects of a world offer.
template<class... Es> struct Tuple {
  using T = bcl::tagged_tuple<Es...>;
  using Base = std::tuple<TyOf<Es>...>;
  static constexpr char Name = 't';
  static constexpr bool Tags = true;
  template<int N, class X> static auto &tag(X &O) { return O.template get<Tag<N>>(); }
};
template<class E1, class E2> struct Pair {
  using T = bcl::tagged_pair<E1, E2>;
  using Base = std::pair<TyOf<E1>, TyOf<E2>>;
  static constexpr char Name = 'p';
  static constexpr bool Tags = true;
  template<int N, class X> static auto &tag(X &O) { return O.template get<Tag<N>>(); }
};
template<class E1, class E2> struct Conv {
  using T = bcl::convertible_pair<TyOf<E1>, TyOf<E2>>;
  using Base = std::pair<TyOf<E1>, TyOf<E2>>;
  static constexpr char Name = 'c';
  static constexpr bool Tags = false;
  template<int N> using El = typename bcl::get_tagged<Tag<N>, E1, E2>::type;
  template<int N> static El<N> &tag(T &O) { return O; }
  template<int N> static const El<N> &tag(const T &O) { return O; }
};
template<class... Es> struct Std {
  using T = std::tuple<TyOf<Es>...>;
  using Base = T;
  static constexpr char Name = 's';
  static constexpr bool Tags = false;
  template<int N, class X> static auto &tag(X &O) { return std::get<bcl::index_of<bcl::get_tagged<Tag<N>, Es...>, Es...>()>(O); }
};

struct Visit {
  std::vector<L> *R;
  long Add;
  long Calls = 0;
  template<class E, class V> void operator()(V &X) {
    ++Calls;
    R->push_back({long(IdOf<typename E::tag>::value), num(X)});
    if constexpr (!std::is_const<V>::value) if (Add) X = V(num(X) + Add);
  }
  template<class V> void operator()(V &X) {
    ++Calls;
    R->push_back({long(R->size()) + 1, num(X)});
    if constexpr (!std::is_const<V>::value) if (Add) X = V(num(X) + Add);
  }
};
static string list(const std::vector<L> &X) {
  string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + list(X[I]);
  return S + "]";
}

template<template<class...> class W, class... Es> struct World {
  using Ob = W<Es...>;
  using T = typename Ob::T;
  using Base = typename Ob::Base;
  static constexpr std::size_t N = sizeof...(Es);
  static constexpr bool Copy = ((Kind<TyOf<Es>>::copy) && ... && true);
  using Idx = std::make_index_sequence<N>;
  template<int K> using At = typename bcl::get_tagged<Tag<K>, Es...>;
  template<int K> static constexpr bool has() { return !std::is_void<At<K>>::value; }

  template<class F, int... Ks> static void tags(F &&Fn, std::integer_sequence<int, Ks...>) { (Fn(Int<Ks + 1>()), ...); }
  template<class F> static void tags(F &&Fn) { tags(Fn, std::make_integer_sequence<int, NT>()); }
  template<class F, std::size_t... Ps> static void each(F &&Fn, std::index_sequence<Ps...>) { (Fn(std::integral_constant<std::size_t, Ps>()), ...); }
  template<class F> static void each(F &&Fn) { each(Fn, Idx()); }

  template<std::size_t P> using El = std::tuple_element_t<P, std::tuple<Es...>>;

  static string header() {
    std::ostringstream O;
    O << "{\"w\":\"" << Ob::Name << "\",\"n\":" << NT << ",\"E\":[";
    each([&](auto P) { O << (P() ? "," : "") << "{\"tags\":" << list(Es_tags(P)) << ",\"kind\":\"" << Kind<TyOf<El<P()>>>::name() << "\"}"; });
    using TT = bcl::tagged_tuple<Es...>;
    O << "],\"size\":" << bcl::tagged_tuple_size<TT>::value << ",\"none\":" << B(bcl::tagged_tuple_empty<TT>::value);
    if (Ob::Name == 's' && bcl::tuple_empty<std::tuple<TyOf<Es>...>>::value != (N == 0)) O << "?";
    O << ",\"main\":[";
    each([&](auto P) { O << (P() ? "," : "") << IdOf<typename bcl::tagged_tuple_tag<P(), TT>::type>::value; });
    auto perTag = [&](const char *Name, auto F) {
      O << "],\"" << Name << "\":[";
      tags([&](auto K) { O << (K() > 1 ? "," : ""); F(K); });
    };
    perTag("has", [&](auto K) { O << B(has<K()>()); });
    perTag("idx", [&](auto K) { if constexpr (has<K()>()) O << bcl::tagged_tuple_idx<Tag<K()>, TT>::value; else O << 99; });
    perTag("elmain", [&](auto K) {
      if constexpr (has<K()>()) {
        using X = typename bcl::tagged_tuple_element<Tag<K()>, TT>::tag;
        static_assert(std::is_same<X, bcl::get_tagged_tag<Tag<K()>, Es...>>::value, "tag");
        O << IdOf<X>::value;
      } else O << 0;
    });
    perTag("elalias", [&](auto K) {
      O << (has<K()>() ? list(tagIds(static_cast<std::conditional_t<has<K()>(), bcl::get_tagged_alias<Tag<K()>, Es...>, bcl::TypeList<>> *>(nullptr)))
                       : "[]");
    });
    perTag("elkind", [&](auto K) {
      if constexpr (has<K()>()) O << "\"" << Kind<bcl::get_tagged_t<Tag<K()>, bcl::TypeList<Es...>>>::name() << "\"";
      else O << "\"\"";
    });
    O << "],\"alias\":[";
    each([&](auto P) {
      O << (P() ? ",[" : "[");
      tags([&](auto K) { O << (K() > 1 ? "," : "") << B(bcl::tags::is_alias<Tag<K()>, El<P()>>::value); });
      O << "]";
    });
    O << "],\"more\":[";
    each([&](auto P) {
      using A = bcl::add_alias_tagged<El<P()>, Tag<NT + 1>, Tag<NT + 2>>;
      using C = bcl::add_alias_list_tagged<El<P()>, bcl::TypeList<Tag<NT + 1>, Tag<NT + 2>>>;
      static_assert(std::is_same<typename A::type, TyOf<El<P()>>>::value, "type");
      static_assert(std::is_same<typename C::type, TyOf<El<P()>>>::value, "type");
      L X = tagIds(static_cast<typename A::alias *>(nullptr)), Y = tagIds(static_cast<typename C::alias *>(nullptr));
      if (X != Y || !bcl::is_tagged<A>::value || bcl::is_tagged<TyOf<El<P()>>>::value) X.push_back(-1);
      O << (P() ? "," : "") << list(X);
    });
    O << "],\"same\":";
    using Same = bcl::tags::get_tagged_tuple_t<long, typename Es::tag...>;
    using Same2 = bcl::tags::get_tagged_tuple_t<long, bcl::TypeList<typename Es::tag...>>;
    static_assert(std::is_same<Same, Same2>::value, "list");
    O << list(sameTags(static_cast<Same *>(nullptr))) << "}";
    return O.str();
  }
  template<class P> static L Es_tags(P) { return ownTags(static_cast<El<P::value> *>(nullptr)); }
  template<class Ty, class... Ts> static L ownTags(bcl::tagged<Ty, Ts...> *) { return L{long(IdOf<Ts>::value)...}; }
  template<class... Ts> static L sameTags(bcl::tagged_tuple<Ts...> *) {
    return L{(std::is_same<typename Ts::type, long>::value ? long(IdOf<typename Ts::tag>::value) : -1)...};
  }

  template<class X, std::size_t... Ps> static std::unique_ptr<T> make(const L &V, X, std::index_sequence<Ps...>) {
    return std::unique_ptr<T>(new T(TyOf<Es>(V[Ps])...));
  }
  // The same from values which are kept.
  template<std::size_t... Ps> static std::unique_ptr<T> copies(const L &V, std::index_sequence<Ps...>) {
    if constexpr (Copy) {
      std::tuple<TyOf<Es>...> From{TyOf<Es>(V[Ps])...};
      std::unique_ptr<T> R(V[0] % 2 ? new T(std::get<Ps>(From)...) : new T(static_cast<const TyOf<Es> &>(std::get<Ps>(From))...));
      if (((num(std::get<Ps>(From)) != V[Ps]) || ...)) exit(6);
      return R;
    }
    return nullptr;
  }
  template<std::size_t... Ps> static Base base(const L &V, std::index_sequence<Ps...>) { return Base(TyOf<Es>(V[Ps])...); }

  // Visits with the library's functions where they apply.
  template<class X> static std::vector<L> visit(X &O, long Add) {
    std::vector<L> R;
    if constexpr (Ob::Name == 't' || Ob::Name == 's') {
      if (Add % 2) bcl::for_each(O, Visit{&R, Add});
      else {
        Visit V{&R, Add};
        bcl::for_each(O, V);
        if (V.Calls != long(N)) R.push_back({-1, V.Calls}); // called, and not a copy of it
      }
    } else {
      each([&](auto P) {
        if constexpr (Ob::Name == 'p' || Ob::Name == 'c') { Visit{&R, Add}.template operator()<El<P()>>(std::get<P()>(O)); }
      });
    }
    return R;
  }
  template<class X> static L args(X &O, long Set) {
    L R;
    auto F = [&](auto &...A) -> std::size_t {
      long P = 0;
      auto One = [&](auto &Y) {
        using V = std::remove_reference_t<decltype(Y)>;
        ++P;
        if constexpr (!std::is_const<V>::value) if (Set >= 0) Y = V(Set + P);
        R.push_back(num(Y));
      };
      (One(A), ...);
      return R.size();
    };
    if constexpr (Ob::Name == 't' || Ob::Name == 's') {
      using BaseRef = std::conditional_t<std::is_const<X>::value, const Base, Base>;
      if (bcl::forward_as_args(static_cast<BaseRef &>(O), F) != N) R.push_back(-1);
    } else {
      each([&](auto P) {
        auto &Y = std::get<P()>(O);
        using V = std::remove_reference_t<decltype(Y)>;
        if constexpr (!std::is_const<V>::value) if (Set >= 0) Y = V(Set + long(P()) + 1);
        R.push_back(num(Y));
      });
    }
    return R;
  }

  static string obj(T &O) {
    const T &C = O;
    L Pos, Tags;
    each([&](auto P) {
      bool Same = &std::get<P()>(O) == &std::get<P()>(C);
      Pos.push_back(Same ? num(std::get<P()>(C)) : -1);
    });
    tags([&](auto K) {
      if constexpr (has<K()>()) {
        auto &X = Ob::template tag<K()>(O);
        auto &Y = Ob::template tag<K()>(C);
        static_assert(std::is_same<std::decay_t<decltype(X)>, typename At<K()>::type>::value, "type");
        Tags.push_back(&X == &Y ? num(Y) : -1);
      } else Tags.push_back(0);
    });
    string E1 = list(visit(O, 0)), E2 = list(visit(C, 0));
    L A1 = args(O, -1), A2 = args(C, -1);
    if (A1 != A2) A1.push_back(-1);
    return "{\"pos\":" + list(Pos) + ",\"tag\":" + list(Tags) + ",\"each\":" + E1 + ",\"ceach\":" + E2 + ",\"args\":" + list(A1) + "}";
  }

  static void run(std::istream &In) {
    std::unique_ptr<T> S[2] = {std::unique_ptr<T>(new T()), std::unique_ptr<T>(new T())};
    std::cout << "[" << header();
    string Op, Tok;
    while (In >> Op) {
      int I, J, K, V;
      L Vs;
      In >> I >> J >> K >> V;
      while (In >> Tok && Tok != ";") Vs.push_back(std::stol(Tok));
      auto &P = S[I - 1];
      auto &Q = S[J ? J - 1 : 0];
      if (Op == "new") P.reset(new T());
      else if (Op == "make") {
        if constexpr (Copy && N > 0) P = V % 2 ? copies(Vs, Idx()) : make(Vs, 0, Idx());
        else P = make(Vs, 0, Idx());
      }
      else if (Op == "assign") {
        if constexpr (N == 0) ;
        else if constexpr (Copy) {
          Base F = base(Vs, Idx());
          T &R = V % 2 ? (*P = F) : V % 3 ? (*P = static_cast<const Base &>(F)) : (*P = base(Vs, Idx()));
          if (&R != P.get() || F != base(Vs, Idx())) exit(5);
        } else { T &R = (*P = base(Vs, Idx())); if (&R != P.get()) exit(5); }
      }
      else if (Op == "set") tags([&](auto X) {
        if constexpr (has<X()>()) if (X() == K) { auto &R = Ob::template tag<X()>(*P); R = std::decay_t<decltype(R)>(V); }
      });
      else if (Op == "setpos") each([&](auto X) {
        if (int(X()) + 1 == K) { auto &R = std::get<X()>(*P); R = std::decay_t<decltype(R)>(V); }
      });
      else if (Op == "copy") { if constexpr (Copy) { if (V % 2) *P = *Q; else *P = static_cast<const T &>(*Q); } }
      else if (Op == "cctor") { if constexpr (Copy) { std::unique_ptr<T> N(V % 2 ? new T(*Q) : new T(static_cast<const T &>(*Q))); P = std::move(N); } }
      else if (Op == "move") *P = std::move(*Q);
      else if (Op == "mctor") P.reset(new T(std::move(*Q)));
      else if (Op == "swap") std::swap(*P, *Q);
      else if (Op == "add") visit(*P, V);
      else if (Op == "args") args(*P, V);
      else exit(3);
      std::cout << ",{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"k\":" << K << ",\"v\":" << V
        << ",\"vs\":" << list(Vs) << "},\"s\":[" << obj(*S[0]) << "," << obj(*S[1]) << "]}";
    }
    std::cout << "]" << std::endl;
  }
};
static void dispatch(int N, std::istream &In);
int main() {
  string Line;
  while (std::getline(std::cin, Line)) {
    std::istringstream In(Line);
    int N;
    In >> N;
    dispatch(N, In);
  }
}
#include "world.h"
