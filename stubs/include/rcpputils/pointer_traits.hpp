#pragma once
#include <memory>
#include <type_traits>
namespace rcpputils
{
template <class T> struct remove_pointer { using type = std::remove_pointer_t<T>; };
template <class T> struct remove_pointer<std::shared_ptr<T>> { using type = T; };
template <class T, class D> struct remove_pointer<std::unique_ptr<T, D>> { using type = T; };
template <class T> struct is_smart_pointer : std::false_type {};
template <class T> struct is_smart_pointer<std::shared_ptr<T>> : std::true_type {};
template <class T, class D> struct is_smart_pointer<std::unique_ptr<T, D>> : std::true_type {};
template <class T> struct is_pointer : std::bool_constant<std::is_pointer_v<std::remove_cvref_t<T>> || is_smart_pointer<std::remove_cvref_t<T>>::value> {};
template <class T> constexpr bool is_pointer_v = is_pointer<T>::value;
}  // namespace rcpputils
