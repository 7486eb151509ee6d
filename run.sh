#!/bin/bash
# bash run.sh PROPERTY [quick|thorough]: builds the harness against /repo's
# current working tree and decides one property. VERIF_SEED, VERIF_TIER are honoured.
# bash run.sh --setup: builds everything once, to fill the build cache.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export CGO_ENABLED=1
out=$(mktemp -d "${TMPDIR:-/tmp}/vmon-build.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT

build() { # build NAME FLAGS...
	local name=$1
	shift
	(cd "$here/harness" && go build -trimpath "$@" -o "$out/$name" .)
}

# the builds of C30: 32-bit, the newest and the oldest Go, no optimisation
variants="386 newest oldest unoptimised"
variant() {
	case $1 in
	386) GOARCH=386 CGO_ENABLED=0 build vmon-386 ;;
	newest) PATH=/opt/veriftools/go1.27.3/bin:$PATH build vmon-newest ;;
	oldest) PATH=/opt/veriftools/go1.25.14/bin:$PATH build vmon-oldest ;;
	unoptimised) build vmon-unoptimised -gcflags=all='-N -l -d=checkptr' ;;
	esac
}

if [ "${1:-}" = "--setup" ]; then
	build vmon && build vmon-race -race && for v in $variants; do variant $v || exit; done
	exit $?
fi

prop=${1:?usage: run.sh PROPERTY [quick|thorough]}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
name=vmon
flags=()
case $prop in
C30)
	build vmon || { echo "BUILD-FAILED property=$prop" >&2; exit 2; }
	for v in $variants; do
		if ! variant $v 2>"$out/log"; then
			mkdir -p "$here/replays" && cp "$out/log" "$here/replays/C30-build-$v.txt"
			cat "$out/log"
			echo "VIOLATION property=C30 replay=$here/replays/C30-build-$v.txt"
			exit 1
		fi
		VMON_VARIANTS="${VMON_VARIANTS:-} $v=$out/vmon-$v"
	done
	export VMON_VARIANTS
	;;
C11)
	name=vmon-race flags=(-race)
	build vmon || { echo "BUILD-FAILED property=$prop" >&2; exit 2; }
	export VMON_PLAIN=$out/vmon
	;;
esac
if ! build $name "${flags[@]}"; then
	echo "BUILD-FAILED property=$prop: the harness does not build against /repo" >&2
	exit 2
fi
"$out/$name" check -prop "$prop" -verif "$here"
