// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define LIBALGEBRA_LITE_EXPORT
#define LIBALGEBRA_LITE_NO_EXPORT
#define LIBALGEBRA_LITE_DEPRECATED __attribute__((__deprecated__))
