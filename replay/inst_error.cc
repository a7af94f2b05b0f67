// Instantiations of the error templates of nsasm/error.h, for extraction.
#include <string>
#include "nsasm/address.h"
#include "nsasm/error.h"
namespace vinst {
using nsasm::Error;
using nsasm::ErrorOr;
using nsasm::Location;

template <typename T> ErrorOr<T> from_const(const T& t) { return t; }
template <typename T> ErrorOr<T> from_move(T t) { return std::move(t); }
template <typename T> ErrorOr<T> error_const(const Error& e) { return e; }
template <typename T> ErrorOr<T> error_move(Error e) { return std::move(e); }
template <typename T> bool ok(const ErrorOr<T>& x) { return x.ok(); }
template <typename T> T star_const(const ErrorOr<T>& x) { return *x; }
template <typename T> T star_ref(ErrorOr<T>& x) { return *x; }
template <typename T> T star_move(ErrorOr<T>& x) { return *std::move(x); }
template <typename T> T arrow_const(const ErrorOr<T>& x) { return *x.operator->(); }
template <typename T> T arrow_ref(ErrorOr<T>& x) { return *x.operator->(); }
template <typename T> void put(ErrorOr<T>& x, const T& t) { *x = t; }
template <typename T> Error error(const ErrorOr<T>& x) { return x.error(); }
template <typename T> ErrorOr<T> copy(const ErrorOr<T>& x) { return x; }
template <typename T> ErrorOr<T> move(ErrorOr<T>& x) { return std::move(x); }
template <typename T> ErrorOr<T> assign(const ErrorOr<T>& x, ErrorOr<T>& y) { y = x; return y; }
template <typename T> ErrorOr<T> move_assign(ErrorOr<T>& x, ErrorOr<T>& y) { y = std::move(x); return y; }
template <typename T> bool equal(const ErrorOr<T>& x, const ErrorOr<T>& y) { return x == y; }
template <typename T> bool unequal(const ErrorOr<T>& x, const ErrorOr<T>& y) { return x != y; }
template <typename T> ErrorOr<int> hand_on(const ErrorOr<T>& x) { NSASM_RETURN_IF_ERROR(x); return 1; }
template <typename T> ErrorOr<int> hand_on_at(const ErrorOr<T>& x, const Location& l) {
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(x, l);
  return 1;
}
#define EACH(T)                                                                                       \
  template ErrorOr<T> from_const<T>(const T&); template ErrorOr<T> from_move<T>(T);                   \
  template ErrorOr<T> error_const<T>(const Error&); template ErrorOr<T> error_move<T>(Error);         \
  template bool ok<T>(const ErrorOr<T>&); template T star_const<T>(const ErrorOr<T>&);                \
  template T star_ref<T>(ErrorOr<T>&); template T star_move<T>(ErrorOr<T>&);                          \
  template T arrow_const<T>(const ErrorOr<T>&); template T arrow_ref<T>(ErrorOr<T>&);                 \
  template void put<T>(ErrorOr<T>&, const T&); template Error error<T>(const ErrorOr<T>&);            \
  template ErrorOr<T> copy<T>(const ErrorOr<T>&); template ErrorOr<T> move<T>(ErrorOr<T>&);           \
  template ErrorOr<T> assign<T>(const ErrorOr<T>&, ErrorOr<T>&);                                      \
  template ErrorOr<T> move_assign<T>(ErrorOr<T>&, ErrorOr<T>&);                                       \
  template bool equal<T>(const ErrorOr<T>&, const ErrorOr<T>&);                                       \
  template bool unequal<T>(const ErrorOr<T>&, const ErrorOr<T>&);                                     \
  template ErrorOr<int> hand_on<T>(const ErrorOr<T>&);                                                \
  template ErrorOr<int> hand_on_at<T>(const ErrorOr<T>&, const Location&);
EACH(int)
EACH(std::string)

ErrorOr<void> v_ok() { return {}; }
ErrorOr<void> v_const(const Error& e) { return e; }
ErrorOr<void> v_move(Error e) { return std::move(e); }
bool v_isok(const ErrorOr<void>& x) { return x.ok(); }
Error v_error(const ErrorOr<void>& x) { return x.error(); }
ErrorOr<void> v_copy(const ErrorOr<void>& x) { return x; }
ErrorOr<void> v_moved(ErrorOr<void>& x) { return std::move(x); }
ErrorOr<void> v_assign(const ErrorOr<void>& x, ErrorOr<void>& y) { y = x; return y; }
bool v_equal(const ErrorOr<void>& x, const ErrorOr<void>& y) { return x == y; }
bool v_unequal(const ErrorOr<void>& x, const ErrorOr<void>& y) { return x != y; }
ErrorOr<int> v_hand_on(const ErrorOr<void>& x) { NSASM_RETURN_IF_ERROR(x); return 1; }

Error e_make(const std::string& m) { return Error("%s", m); }
Error e_lit() { return Error("text 100%%"); }
Error e_copy(const Error& e) { return e; }
bool e_equal(const Error& a, const Error& b) { return a == b; }
bool e_unequal(const Error& a, const Error& b) { return a != b; }
std::string e_print(const Error& e) { return e.ToString(); }
Error& e_set1(Error& e, const Location& l) { return e.SetLocation(l); }
Error& e_set2(Error& e, const Location& l, const Location& m) { return e.SetLocation(l, m); }
void l_update(Location& l, const Location& m) { l.Update(m); }
std::string l_print(const Location& l) { return l.ToString(); }
Location l_none() { return Location(); }
Location l_path(const std::string& p) { return p; }
Location l_line(int n) { return n; }
Location l_pathline(const std::string& p, int n) { return Location(p, n); }
Location l_addr(int a) { return Location::FromAddress(a); }
Location l_address(nsasm::Address a) { return a; }
}  // namespace vinst
