#!/bin/bash
# run.sh ID [extra arguments of the monitor]
# Builds the monitor together with /repo's current working tree and runs the monitor of one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
work=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -a "$here/harness/." "$work/" || exit 2
sed -i "s#=> /repo#=> $repo#" "$work/go.mod"
# the repository has no go.mod of its own; one is laid over it for the build only
printf '{"Replace": {"%s/go.mod": "%s/repo.go.mod"}}\n' "$repo" "$work" > "$work/overlay.json"
if [ -f "$repo/go.mod" ]; then printf '{"Replace": {}}\n' > "$work/overlay.json"; fi
export GOFLAGS="-overlay=$work/overlay.json -mod=mod" GOWORK=off
race=
if [ "$id" = C20 ]; then race=-race; export CGO_ENABLED=1; fi
cd "$work" || exit 2
if ! go build $race -o "$work/vmon" ./cmd/vmon 2> "$work/build.log"; then
	cat "$work/build.log" >&2
	echo "ERROR: the monitor does not build against $repo" >&2
	exit 2
fi
cd "$here" || exit 2
export TMPDIR=$work
"$work/vmon" -prop "$id" -tier "$tier" -seed "$seed" -out "$here/evidence" -known "$here/known-findings.txt" "$@"
