#!/bin/sh
# Self-test of the controlled runtimes: constructs.cpp must be quiet, every scenario of racy.cpp must be reported.
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d) || exit 2
W=$(for w in memcpy memmove memset malloc free calloc realloc posix_memalign aligned_alloc __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do printf -- '-Wl,--wrap=%s ' $w; done)
for f in mcrt gomp_rt tbb_rt explorer; do g++ -std=c++17 -O2 -g -w -c ../$f.cpp -o "$T/$f.o" & done
for f in constructs racy; do g++ -std=c++17 -O1 -g -fopenmp -fsanitize=thread -w -c $f.cpp -o "$T/$f.o" & done
wait
for f in constructs racy; do g++ -g "$T/$f.o" "$T"/mcrt.o "$T"/gomp_rt.o "$T"/tbb_rt.o "$T"/explorer.o $W -lpthread -ldl -o "$T/$f" || exit 2; done
r=0
"$T/constructs" --tier quick --out "$T" --json "$T/o.json" --time 300 || { echo "FALSE ALARM"; r=1; }
for s in race-omp-for race-omp-nowait race-omp-task lost-update-atomic race-relaxed deadlock race-shared-lock race-tbb tbb-body-state omp-thread-count; do
  if "$T/racy" --tier quick --out "$T" --json "$T/o.json" --time 60 --only $s > "$T/log" 2>&1; then echo "MISSED $s"; r=1; else grep -m1 -o "violation.*\|VIOLATION.*" "$T/log" | sed "s/^/$s: /"; fi
done
rm -rf "$T"
exit $r
