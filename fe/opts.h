// Forced first include: makes the installed absl headers alias their
// string_view/optional/variant/any to the std types, which is what the
// repository's own (Bazel) build does and what several of its files need.
#ifndef ABSL_BASE_OPTIONS_H_
#define ABSL_BASE_OPTIONS_H_
#define ABSL_OPTION_USE_STD_ANY 1
#define ABSL_OPTION_USE_STD_OPTIONAL 1
#define ABSL_OPTION_USE_STD_STRING_VIEW 1
#define ABSL_OPTION_USE_STD_VARIANT 1
#define ABSL_OPTION_USE_INLINE_NAMESPACE 1
#define ABSL_OPTION_INLINE_NAMESPACE_NAME lts_20220623
#define ABSL_OPTION_HARDENED 0
#endif
