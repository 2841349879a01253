// Stand-in for the (network-only) vendored NamedType library: the subset SIREN uses.
#pragma once
#include <type_traits>
#include <utility>
#define FLUENT_NODISCARD [[nodiscard]]
#define FLUENT_CONSTEXPR17 constexpr
namespace fluent {
template<typename T, template<typename> class crtpType>
struct crtp {
    constexpr T & underlying() { return static_cast<T &>(*this); }
    constexpr T const & underlying() const { return static_cast<T const &>(*this); }
};
template<typename T, typename Parameter, template<typename> class... Skills>
class NamedType : public Skills<NamedType<T, Parameter, Skills...>>... {
public:
    using UnderlyingType = T;
    constexpr NamedType() = default;
    explicit constexpr NamedType(T const & v) : value_(v) {}
    template<typename T_ = T, typename = typename std::enable_if<!std::is_reference<T_>::value>::type>
    explicit constexpr NamedType(T && v) : value_(std::move(v)) {}
    constexpr T & get() { return value_; }
    constexpr std::remove_reference_t<T> const & get() const { return value_; }
private:
    T value_;
};
template<typename N> struct FunctionCallable;
template<typename T, typename P, template<typename> class... S>
struct FunctionCallable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, FunctionCallable> {
    constexpr operator T const &() const { return this->underlying().get(); }
    constexpr operator T &() { return this->underlying().get(); }
};
template<typename N> struct MethodCallable;
template<typename T, typename P, template<typename> class... S>
struct MethodCallable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, MethodCallable> {
    constexpr std::remove_reference_t<T> const * operator->() const { return std::addressof(this->underlying().get()); }
    constexpr std::remove_reference_t<T> * operator->() { return std::addressof(this->underlying().get()); }
};
template<typename N> struct Callable : FunctionCallable<N>, MethodCallable<N> {};
template<typename T> struct Comparable : crtp<T, Comparable> {
    constexpr bool operator<(Comparable<T> const & o) const { return this->underlying().get() < o.underlying().get(); }
    constexpr bool operator>(Comparable<T> const & o) const { return o.underlying().get() < this->underlying().get(); }
    constexpr bool operator<=(Comparable<T> const & o) const { return !(o < *this); }
    constexpr bool operator>=(Comparable<T> const & o) const { return !(*this < o); }
    constexpr bool operator==(Comparable<T> const & o) const { return this->underlying().get() == o.underlying().get(); }
    constexpr bool operator!=(Comparable<T> const & o) const { return !(*this == o); }
};
template<typename T> struct BinaryAddable : crtp<T, BinaryAddable> {
    constexpr T operator+(T const & o) const { return T(this->underlying().get() + o.get()); }
    constexpr T & operator+=(T const & o) { this->underlying().get() += o.get(); return this->underlying(); }
};
template<typename T> struct BinarySubtractable : crtp<T, BinarySubtractable> {
    constexpr T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    constexpr T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
};
template<typename T> struct UnarySubtractable : crtp<T, UnarySubtractable> {
    constexpr T operator-() const { return T(-this->underlying().get()); }
};
template<typename T> struct Subtractable : BinarySubtractable<T>, UnarySubtractable<T> {
    using UnarySubtractable<T>::operator-;
    using BinarySubtractable<T>::operator-;
};
}
