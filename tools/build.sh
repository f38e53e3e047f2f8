#!/bin/bash
# build.sh KIND...   builds harness binaries from /repo's current working tree into $VERIF_BUILD (default /verif/.build)
# KIND: plain race asan sched x86 (32-bit)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
. /opt/vp/env.sh
mkdir -p "$B/src" "$B/instr"
cd "$B"
cp "$V"/harness/*.go src/
# same dependencies as the repository
{
  echo "module verifharness"; echo; echo "go 1.17"; echo
  sed -n '/^require (/,/^)/p' "$R/go.mod"
  echo "require github.com/kazu/skiplistmap v0.0.0"
  echo "replace github.com/kazu/skiplistmap => $R"
} > src/go.mod
cp "$R/go.sum" src/go.sum
# reproducible runs: fixed seeds of the runtime's hash function, goroutine id for the scheduler
A=$(go env GOROOT)/src/runtime/alg.go
sed -e 's|key\[i\] = bootstrapRand()|key[i] = 0x9e3779b97f4a7c15*uint64(i+1) ^ 0x5bd1e995|' \
    -e 's|hashkey\[i\] = uintptr(bootstrapRand())|hashkey[i] = uintptr(0x9e3779b97f4a7c15*uint64(i+3) ^ 0x2545f491)|' "$A" > alg.go.txt
[ "$(diff "$A" alg.go.txt | grep -c '^>')" = 2 ] || { echo "runtime/alg.go is not as expected" >&2; exit 2; }
printf '\n// VerifGoid ... id of goroutine\nfunc VerifGoid() uint64 { return getg().goid }\n' >> alg.go.txt
printf '{"Replace":{"%s":"%s"}}\n' "$A" "$B/alg.go.txt" > ov.json
cmpmv() { cmp -s "$1" "$2" || cp "$1" "$2"; }
for k in "$@"; do
  case $k in
  plain) (cd src && go build -overlay "$B/ov.json" -o "$B/vh-plain" .) ;;
  race) (cd src && go build -race -tags verifrace -overlay "$B/ov.json" -o "$B/vh-race" .) ;;
  x86) rm -f "$B/vh-x86" # a tree which does not build for 32 bits has no such stage
    (cd src && CGO_ENABLED=0 GOARCH=386 go build -overlay "$B/ov.json" -o "$B/vh-x86" .) || echo "no 32-bit build" ;;
  asan) (cd src && go build -asan -overlay "$B/ov.json" -o "$B/vh-asan" .) ;;
  sched)
    M=$(go env GOMODCACHE)/github.com
    E=$(cd src && go list -f '{{.Dir}}' github.com/kazu/elist_head)
    L=$(cd src && go list -f '{{.Dir}}' github.com/kazu/loncha/lista_encabezado)
    T=$(cd src && go list -f '{{.Dir}}' github.com/lk4d4/trylock)
    mkdir -p instr-new
    (cd "$V/tools/instr" && GO111MODULE=off go build -o "$B/instrbin" .)
    DIRS=$(find "$R" -name '*.go' ! -name '*_test.go' -not -path '*/.*' -printf '%h\n' | sort -u)
    "$B/instrbin" "$B/instr" "$B/ov-instr.json" $DIRS "$E" "$L"
    python3 - "$B" "$R" "$V" "$T" "$A" <<'P'
import json, sys
B, R, V, T, A = sys.argv[1:]
ov = json.load(open(B + "/ov-instr.json"))
ov[R + "/zz_vsched/vsched.go"] = V + "/tools/overlay/vsched.go.txt"
ov[R + "/zz_vsched/vsync/vsync.go"] = V + "/tools/overlay/vsync.go.txt"
ov[T + "/trylock.go"] = V + "/tools/overlay/trylock.go.txt"
ov[A] = B + "/alg.go.txt"
json.dump({"Replace": ov}, open(B + "/ov-sched.json", "w"), indent=1)
P
    (cd src && GODEBUG=goindex=0 go build -tags sched -overlay "$B/ov-sched.json" -o "$B/vh-sched" .) ;;
  esac
done
