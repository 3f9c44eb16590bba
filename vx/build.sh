#!/bin/bash
# Builds the extractor into /verif/build/vx (gitignored); a no-op when it is newer than its source.
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=$(dirname "$D")/build
mkdir -p "$B"
if [ ! -x "$B/vx" ] || [ "$D/vx.cpp" -nt "$B/vx" ]; then
	T=$(mktemp "$B/vx.XXXXXX")
	g++ -O1 $(llvm-config-18 --cxxflags) -fno-rtti -DNDEBUG -w "$D/vx.cpp" -o "$T" \
		-L"$(llvm-config-18 --libdir)" -l:libclang-cpp.so.18.1 -lLLVM-18
	mv "$T" "$B/vx"
fi
