// Build configuration used by the checks: the options a default host build has, without optional dependencies.
#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 1
#ifdef LV_BOUNDS_CHECK
#define LVARRAY_BOUNDS_CHECK
#endif
#define LVARRAY_ADDR2LINE_EXEC /usr/bin/addr2line
