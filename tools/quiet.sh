#!/bin/bash
# quiet.sh [NAME...]: behaviour-preserving refactorings (quiet/NAME.diff) applied
# to a copy of /repo; every check must stay quiet on each of them.
here=$(cd "$(dirname "$0")/.." && pwd)
names=${*:-$(cd "$here/quiet" && ls *.diff | sed 's/\.diff$//')}
bad=0
for n in $names; do
	T=$(mktemp -d /tmp/hjquiet.XXXXXXXX)
	cp -a /repo "$T/repo" && git -C "$T/repo" apply "$here/quiet/$n.diff" || { echo "$n does not apply"; bad=1; rm -rf "$T"; continue; }
	if ! SIM_REPO=$T/repo bash "$here/tools/build.sh" "$T/b" > "$T/log" 2>&1; then
		echo "$n cannot be built"; tail -5 "$T/log"; bad=1; rm -rf "$T"; continue
	fi
	for p in ${PROPS:-$(sed -n 's/.*"id": *"\(C[0-9]*\)".*/\1/p' "$here/properties.jsonl" | sort -u)}; do
		out=$("$T/b/simbin" run -prop $p -tier quick -seed ${SEED:-1} -workers 8 -replays "$T" -known "$here/known_findings.jsonl" -evidence "$T/ev.json" 2>&1)
		rc=$?
		case $rc in 0) ;; *) bad=1; echo "$n $p exit $rc: $(echo "$out" | grep -v KNOWN | head -2)";; esac
	done
	echo "$n done"
	rm -rf "$T"
done
exit $bad
