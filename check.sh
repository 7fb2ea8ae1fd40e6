#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE                 run a replay file against /repo's current tree
# check.sh setup                       build once and compare the stand-ins with the code they stand for
# Exit 0: held; 1: violation (with a VIOLATION line); anything else: the check itself failed.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
export SIM_HOME=$here
scratch=$(mktemp -d "${TMPDIR:-/tmp}/hjsim.XXXXXXXX") || exit 3
child=
trap '[ -n "$child" ] && kill "$child" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 130' INT TERM
export TMPDIR=$scratch/tmp
mkdir -p "$scratch/tmp" "$here/evidence/replays"
if ! bash "$here/tools/build.sh" "$scratch/build" > "$scratch/build.log" 2>&1; then
	echo "the simulator could not be built from the current tree:" >&2
	tail -n 40 "$scratch/build.log" >&2
	exit 3
fi
bin=$scratch/build/simbin
case "$1" in
setup)
	"$bin" selfcheck
	;;
replay)
	"$bin" replay "$2"
	;;
C*)
	tier=${2:-${VERIF_TIER:-quick}}
	"$bin" run -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -workers "${SIM_WORKERS:-8}" \
		-evidence "$here/evidence/$1.json" -replays "$here/evidence/replays" -known "$here/known_findings.jsonl" &
	child=$!
	wait $child
	;;
*)
	echo "usage: check.sh PROPERTY [quick|thorough] | replay FILE | setup" >&2
	exit 3
	;;
esac
