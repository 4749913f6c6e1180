#!/bin/bash
# check.sh ID TIER: build the checker from /repo's working tree and decide one property.
# Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
export NORA_MC_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
id=${1:?id}
tier=${2:-quick}
mkdir -p target evidence replays
log=target/build-$id.log
if ! (cd mc && cargo build --release --offline) >"$log" 2>&1; then
	tail -40 "$log" >&2
	echo "check $id: build failed" >&2
	exit 2
fi
case $id in
C19 | C22 | C23 | C24 | C25 | C26 | C27 | C30)
	# The binaries under test, with their own dev profile (overflow checks on), outside /repo.
	if ! cargo build --offline --manifest-path /repo/Cargo.toml --target-dir "$PWD/target/repo" \
		-p nora_scp -p nora_sshd >"$log" 2>&1; then
		tail -40 "$log" >&2
		echo "check $id: build of the binaries failed" >&2
		exit 2
	fi
	;;
esac
target/release/nora-mc check "$id" --tier "$tier"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*) exit 2 ;;
esac
