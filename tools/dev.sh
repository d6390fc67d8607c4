#!/bin/bash
# development helper: build and run checks in /tmp/x;  build.sh c06 c07 ...
for c in "$@"; do (g++ -std=c++17 ${F:--O2} -w -I/verif/mock -I/verif/h -I${R:-/repo}/include -I${R:-/repo}/src /verif/checks/$c.cpp -o /tmp/x/$c -pthread) & done; wait
for c in "$@"; do echo == $c; mkdir -p /tmp/x/o; ( time /tmp/x/$c ${c^^} --out /tmp/x/o --tier ${T:-quick} ) 2>&1 | grep -v 'sys\|^$'; grep -v '^s ' /tmp/x/o/summary | tr '\n' ' '; echo; head -5 /tmp/x/o/violations | cut -c1-600; done
