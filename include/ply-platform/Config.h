// Platform configuration used by the checks in /verif (same values as the
// repository's own generated Config.h, except where a flavor overrides them).
#define PLY_PREFER_CPP11 0
#define PLY_WITH_EXCEPTIONS 0
#ifndef PLY_REPLACE_OPERATOR_NEW
#define PLY_REPLACE_OPERATOR_NEW 1
#endif
#ifndef PLY_USE_DLMALLOC
#define PLY_USE_DLMALLOC 0 // let AddressSanitizer own every heap block
#endif
#ifndef PLY_DLMALLOC_DEBUG_CHECKS
#define PLY_DLMALLOC_DEBUG_CHECKS 0
#endif
#define PLY_DLMALLOC_FAST_STATS 0
#define PLY_IMPL_MUTEX_PATH "impl/Mutex_CPP11.h"
#define PLY_IMPL_MUTEX_TYPE ply::Mutex_CPP11
#define PLY_IMPL_CONDITIONVARIABLE_PATH "impl/ConditionVariable_CPP11.h"
#define PLY_IMPL_CONDITIONVARIABLE_TYPE ply::ConditionVariable_CPP11
#ifndef PLY_WORKSPACE_FOLDER
#define PLY_WORKSPACE_FOLDER "/nonexistent-ws/"
#endif
#define PLY_BUILD_FOLDER "/nonexistent-ws/data/build/all/"
#define PLY_CMAKE_PATH "/usr/bin/cmake"
#define WITH_AUDIO 1
