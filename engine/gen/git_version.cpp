//
// Copyright (C) 2011-16 DyND Developers
// BSD 2-Clause License, see LICENSE.txt
//

// NOTE: Only modify git_version.cpp.in, not the generated git_version.cpp.

#include <dynd/git_version.hpp>

#define DYND_GIT_SHA1 "e61891b92972df23584293527f8df2e987ce531c"
#define DYND_VERSION_STRING "e61891b"

namespace dynd {

const char dynd_git_sha1[] = DYND_GIT_SHA1;
const char dynd_version_string[] = DYND_VERSION_STRING;

} // namespace dynd
