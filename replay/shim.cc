// The installed absl libraries are built with their own string_view; this
// driver is built with the std one (as the repository's Bazel build is), so
// the few library functions that take a string_view are given here.
#include <string>
#include <string_view>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_split.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
static std::string cat(std::initializer_list<std::string_view> p) {
  std::string r;
  for (auto& x : p) r.append(x.data(), x.size());
  return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b) { return cat({a.Piece(), b.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { return cat({a.Piece(), b.Piece(), c.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) {
  return cat({a.Piece(), b.Piece(), c.Piece(), d.Piece()});
}
namespace strings_internal {
std::string CatPieces(std::initializer_list<std::string_view> p) { return cat(p); }
}
std::string_view ByChar::Find(std::string_view text, size_t pos) const {
  size_t f = text.find(c_, pos);
  return f == std::string_view::npos ? std::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
}
ABSL_NAMESPACE_END
}

union Data {
  const void* ptr;
  char buf[8];
};
#define D(T) "_ZN4absl7debian319str_format_internal13FormatArgImpl8DispatchI" T "EEbNS2_4DataENS1_24FormatConversionSpecImplEPv"
extern bool dispatch_string(Data, absl::str_format_internal::FormatConversionSpecImpl, void*) asm(D("NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"));
extern bool dispatch_view(Data, absl::str_format_internal::FormatConversionSpecImpl, void*) asm(D("St17basic_string_viewIcSt11char_traitsIcEE"));
bool dispatch_view(Data d, absl::str_format_internal::FormatConversionSpecImpl spec, void* out) {
  std::string s(*static_cast<const std::string_view*>(d.ptr));
  Data e;
  e.ptr = &s;
  return dispatch_string(e, spec, out);
}
