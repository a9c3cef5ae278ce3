// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define ROUGHPY_PLATFORM_EXPORT
#define ROUGHPY_PLATFORM_NO_EXPORT
#define ROUGHPY_PLATFORM_DEPRECATED __attribute__((__deprecated__))
