#!/bin/bash
# Builds everything the checks run: the programs and libraries from /repo's current tree, and the simulator.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
V=$(pwd)
mkdir -p build
exec 9>build/.lock
flock 9
# the sources under test are compiled afresh whatever their time stamps say
rm -rf "$V"/build/bin/debug/.fingerprint/pw_* "$V"/build/sim/debug/.fingerprint/pw_* "$V"/build/sim/debug/.fingerprint/dst-*
L="$V/build/log.$$"
trap 'rm -f "$L"' EXIT
tell() {
	grep -E '^error' -A12 "$L" | head -60
	tail -3 "$L"
	echo "build failed: $1" >&2
}
cd /repo || exit 2
if ! CARGO_TARGET_DIR="$V/build/bin" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 \
	CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true \
	cargo build --offline --bins >"$L" 2>&1; then
	tell programs
	exit 2
fi
cd "$V/sim" || exit 2
if ! CARGO_TARGET_DIR="$V/build/sim" cargo build --offline >"$L" 2>&1; then
	tell simulator
	# what is decided on the programs alone does not need the libraries' interface
	CARGO_TARGET_DIR="$V/build/sim" cargo build --offline --no-default-features >"$L" 2>&1 || exit 2
	echo "built without the checks that call the libraries" >&2
fi
exit 0
