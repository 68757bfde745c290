#!/usr/bin/env bash
# check.sh PROPERTY quick|thorough   build the harness against /repo's working tree and run one check
# check.sh replay FILE               run a recorded violation again
# check.sh build                     only build
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/usr/local/go/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
unset GORACE GODEBUG

work="$VERIF_DIR/out"
mkdir -p "$work" "$VERIF_DIR/evidence" || exit 2
bin="$(mktemp -d "$work/bin.XXXXXX")" || exit 2
trap 'rm -rf "$bin"' EXIT

build() { # build [-race]
	local out="$bin/harness"
	if ! (cd harness && CGO_ENABLED=${2:-0} go build ${1:+$1} -o "$out" .) 2>"$bin/build.log"; then
		echo "build of the harness against /repo failed:" >&2
		cat "$bin/build.log" >&2
		exit 2
	fi
}

case "${1:-}" in
build)
	build "" 0
	build -race 1
	;;
replay)
	case "$(basename "$2")" in
	C05-*)
		build -race 1
		export GOMAXPROCS=4 GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=$bin/race"
		;;
	*) build "" 0 ;;
	esac
	"$bin/harness" replay "$2"
	exit $?
	;;
C05)
	build -race 1
	"$bin/harness" run "$1" "${2:-quick}"
	exit $?
	;;
C*)
	build "" 0
	"$bin/harness" run "$1" "${2:-quick}"
	exit $?
	;;
*)
	echo "usage: $0 PROPERTY quick|thorough | replay FILE | build" >&2
	exit 2
	;;
esac
