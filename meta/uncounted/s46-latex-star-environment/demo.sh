#!/bin/bash
# exit 0 when the property holds on this input
export LC_ALL=C.UTF-8
A=/repo/apertium
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
eq() { [ "$1" = "$2" ] || { echo "got: $1"; echo "expected: $2"; exit 1; }; }
eq "$(printf '\\begin {a}x\\end {a}' | "$A/apertium-prelatex" | "$A/apertium-postlatex-raw" | tr -d ' ')" '\begin{a}x\end{a}'
exit 0
