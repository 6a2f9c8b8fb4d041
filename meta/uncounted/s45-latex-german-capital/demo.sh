#!/bin/bash
# exit 0 when the property holds on this input
export LC_ALL=C.UTF-8
A=/repo/apertium
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
eq() { [ "$1" = "$2" ] || { echo "got: $1"; echo "expected: $2"; exit 1; }; }
eq "$(printf '\\usepackage[ngerman]{babel} "Uber' | "$A/apertium-prelatex" | "$A/apertium-postlatex-raw")" '\usepackage[ngerman]{babel} Über'
exit 0
