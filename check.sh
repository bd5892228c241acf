#!/bin/bash
# check.sh PROPERTY [quick|thorough]   run one check
# check.sh replay FILE                 run a replay file again
# check.sh build                       only build the simulator
# Builds the simulator against the current working tree of /repo.
set -u
cd "$(dirname "$0")" || exit 2
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
export CARGO_TARGET_DIR="$PWD/target"
export GPTSIM_HOME="$PWD"
mkdir -p target evidence replays
build() {
	exec 9>target/lock
	flock 9
	# cargo looks at times of change only, which copies and checkouts do not keep
	local now
	now=$(find /repo/src /repo/Cargo.toml sim/src sim/getrandom sim/Cargo.toml sim/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
	if [ "$(cat target/stamp 2>/dev/null)" != "$now" ]; then
		rm -f "$PWD/target/stamp"
		(cd sim && cargo clean --offline --release -p gpt -p gptsim) >/dev/null 2>&1
	fi
	if ! (cd sim && cargo build --release --offline) >target/build.log 2>&1; then
		cat target/build.log
		echo "the simulator could not be built"
		exit 2
	fi
	echo "$now" >target/stamp
	# a later build must not replace the program under a check that runs
	cp target/release/gptsim "target/gptsim.$$" || exit 2
	[ "$1" = all ] && others "$now"
	flock -u 9
	exec 9>&-
}
# the builds that Q01 compares with the plain one: with the features of the library, and as shipped
others() {
	local v way pids=""
	mkdir -p "target/builds.$$"
	for v in log tracing shipped; do
		way="--release --features $v"
		[ $v = shipped ] && way="--profile shipped"
		(
			export CARGO_TARGET_DIR="$PWD/target/$v"
			mkdir -p "target/$v"
			if [ "$(cat "target/$v/stamp" 2>/dev/null)" != "$1" ]; then
				rm -f "$PWD/target/$v/stamp"
				(cd sim && cargo clean --offline --profile "$([ $v = shipped ] && echo shipped || echo release)" -p gpt -p gptsim) >/dev/null 2>&1
			fi
			if ! (cd sim && cargo build --offline $way) >"target/$v/build.log" 2>&1; then
				tail -20 "target/$v/build.log"
				echo "note: no build '$v', it is left out"
				exit
			fi
			echo "$1" >"target/$v/stamp"
			cp "target/$v/$([ $v = shipped ] && echo shipped || echo release)/gptsim" "target/builds.$$/$v"
		) &
		pids="$pids $!"
	done
	wait $pids
	export GPTSIM_BUILDS="$PWD/target/builds.$$"
}
scope=plain
[ "${1:-}" = Q01 ] && scope=all
[ "${1:-}" = replay ] && grep -q '"property": "Q01"' "${2:-/dev/null}" 2>/dev/null && scope=all
build $scope
bin="$PWD/target/gptsim.$$"
trap 'rm -f "$bin"; rm -rf "$PWD/target/builds.$$"' EXIT
case "${1:-}" in
build) exit 0 ;;
replay) "$bin" replay "$2" ;;
*) "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
exit $?
