// stand-in for the header CMake generates: static linking, nothing to export
#pragma once
#define ROUGHPY_STREAMS_EXPORT
#define ROUGHPY_STREAMS_NO_EXPORT
#define ROUGHPY_STREAMS_DEPRECATED __attribute__((__deprecated__))
