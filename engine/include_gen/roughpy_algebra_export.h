// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define ROUGHPY_ALGEBRA_EXPORT
#define ROUGHPY_ALGEBRA_NO_EXPORT
#define ROUGHPY_ALGEBRA_DEPRECATED __attribute__((__deprecated__))
