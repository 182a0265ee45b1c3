// Results of the templates of lists of types, for the pairs of lists in
// "lists.h" (calls of test<L<..>, L<..>>()).
#include <bcl/cell.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

template<int N> struct Ty {};
template<int N> struct TyOf { using type = Ty<N>; };
template<> struct TyOf<4> { using type = int; };
template<> struct TyOf<5> { using type = const int; };
template<> struct TyOf<6> { using type = int &; };
template<int N> using T_ = typename TyOf<N>::type;
template<class T> struct Id;
template<int N> struct Id<Ty<N>> { enum { value = N }; };
template<> struct Id<int> { enum { value = 4 }; };
template<> struct Id<const int> { enum { value = 5 }; };
template<> struct Id<int &> { enum { value = 6 }; };
template<int N> struct K { using ValueType = int; enum { value = N }; };

template<class... Ts> struct Box {};
#ifdef BCL_LEGACY
template<int... Ns> struct Chain { typedef Utility::Null Type; };
template<int N, int... Ns> struct Chain<N, Ns...> { typedef Base::Cell<K<N>, typename Chain<Ns...>::Type> Type; };
inline std::vector<int> cells(Utility::Null *) { return {}; }
template<class I, class N> std::vector<int> cells(Base::Cell<I, N> *) {
  std::vector<int> R = cells(static_cast<N *>(nullptr));
  R.insert(R.begin(), I::value);
  return R;
}
#endif
using V = std::vector<int>;
#ifdef BCL_LEGACY
// A collection defined by a macro: its cells, and the cells in the order in which they are visited.
struct EachId {
  V R;
  template<class C> void operator()() { R.push_back(C::CellId::value); }
};
static std::string list(const V &X);
template<class C> void coll(const V &Asked) {
  EachId E;
  C::ForeachDefinition(E);
  std::cout << "{\"n\":" << Asked.size() << ",\"a\":" << list(Asked) << ",\"b\":[],\"coll\":[" << list(cells(static_cast<C *>(nullptr))) << ","
            << list(E.R) << "]}" << std::endl;
}
#endif
// Ids of the types of a list, taken without the help of the library.
template<class... Ts> V ids(bcl::TypeList<Ts...>) { return V{int(Id<Ts>::value)...}; }
template<class... Ts> V ids(Box<Ts...>) { return V{int(Id<Ts>::value)...}; }
template<class... Ks> V keys(bcl::StaticMap<Ks...> *) { return V{int(Ks::value)...}; }
struct Each {
  V *R;
  int N = 0;
  template<class T> void operator()() { ++N; R->push_back(Id<T>::value); }
};
struct EachKey {
  V *R;
  int N = 0;
  template<class C> void operator()() { ++N; R->push_back(C::CellKey::value); }
};
template<class T> struct KeyCtor;
template<int N> struct KeyCtor<K<N>> { using CellKey = K<N>; };

static std::string list(const V &X) {
  std::string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + std::to_string(X[I]);
  return S + "]";
}
static std::string list(const std::vector<V> &X) {
  std::string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += (I ? "," : "") + list(X[I]);
  return S + "]";
}
static std::string bools(const V &X) {
  std::string S = "[";
  for (std::size_t I = 0; I < X.size(); ++I) S += std::string(I ? "," : "") + (X[I] ? "true" : "false");
  return S + "]";
}

template<int... Ns> struct L {
  using list = bcl::TypeList<T_<Ns>...>;
  using map = bcl::StaticMap<K<Ns>...>;
#ifdef BCL_LEGACY
  using chain = typename Chain<Ns...>::Type;
#endif
  static V get() { return V{Ns...}; }
  template<int N> static constexpr bool in() { return ((N == Ns) || ... || false); }
  static constexpr bool distinct() { return ((((N_of<Ns>()) == 1)) && ... && true); }
  template<int N> static constexpr int N_of() { return ((N == Ns ? 1 : 0) + ... + 0); }
  template<class B> static constexpr bool disjoint() { return (!B::template in<Ns>() && ... && true); }
  template<class T> static constexpr int uindex() { return bcl::index_of<T, T_<Ns>...>(); }
  template<class T> static constexpr bool uexist() { return bcl::is_contained<T, T_<Ns>...>::value; }
  static constexpr std::size_t usize() { return bcl::size_of<T_<Ns>...>(); }
  using cons = typename bcl::StaticMapConstructor<KeyCtor, K<Ns>...>::Type;
};

template<class A, class B> struct Test {
  using LA = typename A::list;
  using LB = typename B::list;
  V Exist, UExist, Index, UIndex;
  std::vector<V> Remove;
  V Cell;
  std::vector<V> From;
#ifdef BCL_LEGACY
  V LCell;
  std::vector<V> LFrom;
  template<int N> void lcell() {
    using E = Base::IsCellExist<typename A::chain, K<N>>;
    LCell.push_back(E::Value());
    LFrom.push_back(cells(static_cast<typename E::Cell *>(nullptr)));
  }
#endif
  template<int N> void type() {
    using T = T_<N>;
    Exist.push_back(bcl::IsTypeExist<T, LA>::value);
    UExist.push_back(A::template uexist<T>());
    if constexpr (A::template in<N>()) {
      constexpr auto I = LA::template index_of<T>();
      Index.push_back(int(I));
      UIndex.push_back(A::template uindex<T>());
    } else {
      Index.push_back(99);
      UIndex.push_back(99);
    }
    Remove.push_back(ids(typename bcl::RemoveFromTypeList<T, LA>::Type()));
  }
  template<int N> void cell() {
    using E = bcl::IsCellExist<typename A::map, K<N>>;
    Cell.push_back(E::value);
    From.push_back(keys(static_cast<typename E::Cell *>(nullptr)));
  }
  template<int... Ns> void run(std::integer_sequence<int, Ns...>) {
    (type<Ns + 1>(), ...);
    V Each1;
    LA::for_each_type(Each{&Each1});
    V Each2;
    Each E{&Each2};
    LA::for_each_type(E);
    // the function object itself is applied, not a copy of it
    if (Each1 != Each2 || E.N != int(Each2.size())) Each1.push_back(-1);
    constexpr auto Size = LA::size_of();
    std::cout << "{\"n\":" << sizeof...(Ns) << ",\"a\":" << list(A::get()) << ",\"b\":" << list(B::get())
      << ",\"o\":{\"l\":{\"size\":" << Size << ",\"usize\":" << A::usize() << ",\"each\":" << list(Each1)
      << ",\"forward\":" << list(ids(typename bcl::ForwardTypeList<Box, LA>::Type()))
      << ",\"exist\":" << bools(Exist) << ",\"uexist\":" << bools(UExist) << ",\"index\":" << list(Index)
      << ",\"uindex\":" << list(UIndex) << ",\"remove\":" << list(Remove)
      << ",\"merge\":" << list(ids(typename bcl::MergeTypeLists<LA, LB>::Type()))
      << ",\"intersect\":" << list(ids(typename bcl::IntersectTypeLists<LA, LB>::Type()))
      << ",\"nodup\":" << list(ids(typename bcl::RemoveDuplicate<LA>::Type())) << "},\"m\":{";
    if constexpr (A::distinct() && B::distinct()) {
      (cell<Ns + 1>(), ...);
      using M = typename A::map;
      using MB = typename B::map;
      V Keys;
      M::for_each_key(EachKey{&Keys});
      V Keys2;
      EachKey EK{&Keys2};
      M::for_each_key(EK);
      if (Keys != Keys2 || EK.N != int(Keys2.size())) Keys.push_back(-1);
      V MMerge;
      if constexpr (A::template disjoint<B>())
        MMerge = keys(static_cast<typename bcl::MergeCell<M, MB>::Result *>(nullptr));
      std::cout << "\"keys\":" << list(Keys) << ",\"empty\":" << (M::empty() ? "true" : "false")
        << ",\"reverse\":" << list(keys(static_cast<typename bcl::ReverseCell<M>::Result *>(nullptr)))
        << ",\"cell\":" << bools(Cell) << ",\"from\":" << list(From)
        << ",\"cons\":" << list(keys(static_cast<typename A::cons *>(nullptr))) << ",\"mmerge\":" << list(MMerge);
    } else
      std::cout << "\"none\":0";
    std::cout << "}";
#ifdef BCL_LEGACY
    (lcell<Ns + 1>(), ...);
    std::cout << ",\"g\":{\"cell\":" << bools(LCell) << ",\"from\":" << list(LFrom)
      << ",\"reverse\":" << list(cells(static_cast<typename Base::ReverseCell<typename A::chain>::Result *>(nullptr)))
      << ",\"merge\":" << list(cells(static_cast<typename Base::MergeCell<typename A::chain, typename B::chain>::Result *>(nullptr))) << "}";
#endif
    std::cout << "}}\n";
  }
};
template<class A, class B> static void test() {
  Test<A, B>().run(std::make_integer_sequence<int, NTYPES>());
}
static void tests();
int main() { tests(); }
#include "lists.h"
