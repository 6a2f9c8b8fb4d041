#!/bin/bash
# exit 0 when the property holds on this input
export LC_ALL=C.UTF-8
A=/repo/apertium
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
eq() { [ "$1" = "$2" ] || { echo "got: $1"; echo "expected: $2"; exit 1; }; }
printf 'a %% b\r\nc\r\n' > "$T/i"
"$A/apertium-prelatex" "$T/i" | "$A/apertium-postlatex-raw" > "$T/o"
cmp "$T/i" "$T/o" || exit 1
exit 0
