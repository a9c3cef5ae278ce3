// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define ROUGHPY_SCALARS_EXPORT
#define ROUGHPY_SCALARS_NO_EXPORT
#define ROUGHPY_SCALARS_DEPRECATED __attribute__((__deprecated__))
