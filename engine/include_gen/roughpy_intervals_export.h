// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define ROUGHPY_INTERVALS_EXPORT
#define ROUGHPY_INTERVALS_NO_EXPORT
#define ROUGHPY_INTERVALS_DEPRECATED __attribute__((__deprecated__))
