#!/bin/bash
# Builds /verif/.cache/vsim against the current working tree of /repo.
set -eu
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
GOROOT_=/opt/veriftools/go1.26.10
export PATH="$GOROOT_/bin:$PATH" GOROOT="$GOROOT_" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off CGO_ENABLED=0
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
C="$VERIF/.cache"
mkdir -p "$C/ov" "$C/go"
export GOCACHE="$C/go"
# Go map iteration order is a source of nondeterminism: an overlay of two
# runtime files puts it behind a variable the simulator sets (0 = unchanged).
T="$GOROOT_/src/internal/runtime/maps/table.go"
sed -e 's/it\.entryOffset = rand()/it.entryOffset = verifRand()/' -e 's/it\.dirOffset = rand()/it.dirOffset = verifRand()/' "$T" > "$C/ov/table.go.new"
[ "$(grep -c 'verifRand()' "$C/ov/table.go.new")" = 2 ] || { echo "build: map iteration seam not found in $T" >&2; exit 2; }
cat >> "$C/ov/table.go.new" <<'EOG'

// VerifIterSeed replaces the random start of map iteration when it is not 0.
var VerifIterSeed uint64

func verifRand() uint64 {
	if s := VerifIterSeed; s != 0 {
		s *= 0x9e3779b97f4a7c15
		return s ^ s>>29
	}
	return rand()
}
EOG
cmp -s "$C/ov/table.go.new" "$C/ov/table.go" || cp "$C/ov/table.go.new" "$C/ov/table.go"
printf '{"Replace":{"%s":"%s"}}\n' "$T" "$C/ov/table.go" > "$C/ov/ov.json.new"
cmp -s "$C/ov/ov.json.new" "$C/ov/ov.json" || cp "$C/ov/ov.json.new" "$C/ov/ov.json"
cd "$VERIF/sim"
go build -o "$C/instr" ./cmd/instr
# The code under test is built from copies in which every statement is a
# possible schedule point (off unless a run asks for it). Code the copies do not
# build from is simulated without that.
"$C/instr" /repo "$C/ov/src" "$C/ov/ov.json" "$C/ov/fine.json"
if ! go build -trimpath=false -overlay "$C/ov/fine.json" -ldflags=-checklinkname=0 -o "$C/vsim" ./cmd/vsim; then
	echo "build: no statement-level preemption" >&2
	go build -trimpath=false -overlay "$C/ov/ov.json" -ldflags=-checklinkname=0 -o "$C/vsim" ./cmd/vsim
fi
