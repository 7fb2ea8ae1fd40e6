#!/bin/bash
# torture.sh: a program using every statement and expression form must print the
# same instrumented, on 20 simulated schedules, as it prints as written.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/hjtort.XXXXXXXX)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cp -r "$here/sim/torture" "$T/src"
(cd "$here/sim/instr" && go build -buildvcs=false -o "$T/instr" .)
(cd "$T/src" && go run ./cmdm) > "$T/plain.txt" 2>&1
"$T/instr" -src "$T/src" -dst "$T/out" -sites "$T/sites.json"
mkdir "$T/run"
cat > "$T/run/go.mod" <<M
module r

go 1.26

require torture v0.0.0

require simrt v0.0.0

replace torture => ../out

replace simrt => $here/sim/simrt
M
cp "$here/sim/torture/run.go.txt" "$T/run/main.go"
(cd "$T/run" && go build -buildvcs=false -o "$T/r" .)
cd "$T" && ./r > sim.txt
python3 - "$T" <<'P'
import sys
d=sys.argv[1]
# sync.Map is ranged over in any order
norm=lambda s: s.replace("poolb2a1","poola1b2")
plain=[norm(l) for l in open(d+'/plain.txt',errors='replace').read().splitlines()]
bad=0
runs=open(d+'/sim.txt',errors='replace').read().split('== ')[1:]
for r in runs:
    head,*lines=r.splitlines()
    if [norm(l) for l in lines]!=plain:
        bad=1; print('schedule',head); [print(' ',a,'|',b) for a,b in zip(plain,map(norm,lines)) if a!=b]
print(len(runs),'schedules agree' if not bad else 'schedules, NOT all agree')
sys.exit(bad)
P
