#!/bin/bash
# try.sh TREE [ID...]: runs the checks (all by default) against a scratch copy
# TREE of /repo and prints what fired. A development aid: the registered
# commands run against /repo itself.
. /opt/vp/env.sh
root=$(cd "$(dirname "$0")/.." && pwd)
tree=$1; shift
ids=$*
[ -n "$ids" ] || ids=$(cd "$root/harness/checks" && grep -oh 'rt.Check{ID: "C[0-9]*"' *.go | grep -o 'C[0-9][0-9]' | sort)
dir=$(mktemp -d /tmp/try.XXXXXX)
cp -a "$root/harness" "$root/known-findings.txt" "$dir/"
sed -i "s#=> /repo#=> $tree#" "$dir/harness/go.mod"
cd "$dir/harness" || exit 2
CGO_ENABLED=1 go build -o "$dir/h" . || { echo BUILD; exit 2; }
CGO_ENABLED=1 go build -race -o "$dir/hr" . || exit 2
for id in $ids; do
	b=h; case $id in C23|C27|C36) b=hr;; esac
	timeout 900 "$dir/$b" -root "$dir" $id >"$dir/$id.out" 2>&1
	rc=$?
	if [ $rc != 0 ]; then
		echo "$id rc=$rc $(grep -ac VIOLATION "$dir/$id.out") violations: $(grep -a "^case" "$dir/$id.out" | sed 's/^case [0-9]* //' | sort | cut -c1-160 | uniq | head -${SHOW:-2} | tr '\n' '|')"
	fi
done
[ -n "$KEEP" ] && echo "kept $dir" || rm -rf "$dir"
