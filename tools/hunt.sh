#!/bin/bash
# hunt.sh [BUG...]: runs the check of each planted bug's property (or of the
# properties in $PROPS) against a copy of /repo with the bug.
cd "$(dirname "$0")/.." || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
root=$(pwd)
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
	w=$(mktemp -d /tmp/hunt-XXXXXX)
	git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$root/seeded/$b/patch.diff" || { echo "$b doesn't apply"; rm -rf "$w"; continue; }
	mkdir -p "$w/v/evidence" && cp -r nmv "$w/v/nmv" && cp properties.jsonl *.txt "$w/v/" 2>/dev/null
	sed -i "s#=> /repo#=> $w/repo#" "$w/v/nmv/go.mod"
	p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}
	(cd "$w/v/nmv" && go build -o "$w/nmv" .) || { echo "$b doesn't build"; rm -rf "$w"; continue; }
	for q in $p; do
		race=()
		if [ "$("$w/nmv" -needsrace $q)" = true ]; then
			(cd "$w/v/nmv" && go build -race -o "$w/nmv-race" .) && race=(-racebin "$w/nmv-race")
		fi
		out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 "$w/nmv" -root "$w/v" "${race[@]}" $q 2>&1); rc=$?
		n=$(grep -c "^VIOLATION property=$q" <<<"$out")
		echo "$b $q rc=$rc violations=$n $(grep -v ^VIOLATION <<<"$out" | grep -i -m1 -A0 'case\|:' | cut -c1-150)"
	done
	rm -rf "$w"
done
