#if !defined(DYND_ABI_VERSION_H)
#define DYND_ABI_VERSION_H

#include "dynd/abi/integers.h"
#include "dynd/abi/noexcept.h"
#include "dynd/abi/visibility.h"

#define DYND_ABI_HEADER_VERSION_MAJOR 1ull
#define DYND_ABI_HEADER_VERSION_MINOR 0ull
#define DYND_ABI_HEADER_VERSION_DEBUG 0ull

// Major version numbers will be used for any ABI backcompat break.
// Mangle the the names of everything other than the version checking
// functions with the ABI major version so that using the wrong ABI
// major version results in a load-time linker error instead of
// just causing weird behavior.
#define DYND_ABI(fname) dynd_ ## 1 ## _ ## fname

#if defined(__cplusplus)
extern "C" {
#endif // defined(__cplusplus)

dynd_size_t DYND_ABI_EXPORT(dynd_abi_library_version_major)(void) dynd_noexcept;
dynd_size_t DYND_ABI_EXPORT(dynd_abi_library_version_minor)(void) dynd_noexcept;
dynd_size_t DYND_ABI_EXPORT(dynd_abi_library_version_debug)(void) dynd_noexcept;

#if defined(__cplusplus)
}
#endif // defined(__cplusplus)

#endif //!defined(DYND_ABI_VERSION_H)
