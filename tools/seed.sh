#!/bin/bash
# seed.sh NAME...: confirm planted bugs in a scratch copy, then run their checks against /repo.
# For each: demo on the clean tree, patch applies, builds, tests pass, demo fails, check reports.
W=/tmp/seed-work
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
[ -d $W ] || cp -a /repo $W
cd $W || exit 1
git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for n in "$@"; do
	d=$V/seeded/$n
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	out="$n ($p):"
	git checkout -q -- . ; cargo build --workspace --offline >/tmp/seed.log 2>&1 || { echo "$out clean build failed"; continue; }
	X=$(mktemp -d); cp -r "$d"/. $X; rm -f $X/*.diff $X/meta.json
	timeout 300 bash $X/demo.sh >/tmp/seed-clean.log 2>&1; r=$?; out="$out demo-clean=$r"
	if ! git apply "$d/patch.diff"; then echo "$out PATCH DOES NOT APPLY"; rm -rf "$X"; continue; fi
	cargo build --workspace --offline >/tmp/seed.log 2>&1 || { echo "$out BUILD FAILS"; git checkout -q -- .; continue; }
	t=$(cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c '^test .* ok$')
	timeout 300 bash $X/demo.sh >/tmp/seed-bug.log 2>&1; r=$?; out="$out tests=$t demo-bug=$r"
	git checkout -q -- .; rm -rf "$X"
	if [ -z "${NOCHECK:-}" ]; then
		git -C /repo apply "$d/patch.diff"
		s=$(date +%s); (cd $V && bash check.sh ${CHECK:-$p} ${TIER:-quick}) >/tmp/seed-check-$n.log 2>&1; r=$?
		git -C /repo checkout -q -- .
		out="$out check=$r in $(( $(date +%s) - s ))s: $(grep -m1 'what failed' /tmp/seed-check-$n.log | cut -c1-150)"
	fi
	echo "$out"
done
