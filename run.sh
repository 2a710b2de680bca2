#!/bin/bash
# run.sh ID [harness options]: builds the harness against /repo's working tree
# and runs the check of property ID.
. /opt/vp/env.sh
root=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
cd "$root/harness" || exit 2
mkdir -p "$root/work/bin" || exit 2
race=
case $id in C23|C27|C36) race=-race;; esac
bin=$root/work/bin/harness$race-$id
if ! CGO_ENABLED=1 go build $race -o "$bin" . 2>"$root/work/build-$id.log"; then
	cat "$root/work/build-$id.log" >&2
	echo "the harness does not build" >&2
	exit 2
fi
exec "$bin" -root "$root" "$@" "$id"
