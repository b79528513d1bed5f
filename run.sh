#!/bin/bash
# run.sh ID quick|thorough   decide one property of the code in /repo's working tree
# run.sh replay FILE         run the failing case of a replay file again
# run.sh gen N SEED          print generated queries
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 nothing was decided.
set -u
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=/root PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOOS GOARCH GOEXPERIMENT GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GORACE NODE_OPTIONS
export VERIF_KNOWN="$here/known-findings.txt"

id=${1:-}
arg=${2:-${VERIF_TIER:-quick}}
[ "$id" = replay ] && arg=$(realpath "$arg")
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac

tmp=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"

# The harness is built from a copy, so nothing of /verif or /repo is rewritten.
cp -r "$here/harness" "$tmp/harness" || exit 2
cd "$tmp/harness" || exit 2

want=$id
if [ "$id" = replay ]; then
	want=$(sed -n 's/^ "property": "\([A-Z0-9]*\)".*/\1/p' "$arg" | head -n 1)
fi
cover=
if [ "$arg" = thorough ] && [ "$want" != C19 ] && [ "$want" != C31 ] && [ "$want" != C22 ] && [ "$want" != C32 ]; then
	cover="-cover -coverpkg=github.com/shellyln/go-open-soql-parser/..."
fi
if ! go build -trimpath $cover -o "$tmp/verif" . >"$tmp/build.log" 2>&1; then
	echo "the harness does not build against /repo:" >&2
	tail -n 30 "$tmp/build.log" >&2
	exit 2
fi
case $want in
C19 | C31)
	if ! CGO_ENABLED=1 go build -trimpath -race -o "$tmp/verif-race" . >"$tmp/build.log" 2>&1; then
		tail -n 30 "$tmp/build.log" >&2
		exit 2
	fi
	export VERIF_RACE_BIN="$tmp/verif-race"
	;;
C32)
	build() { # VARIABLE NAME SETTINGS...
		local v=$1 f="$tmp/verif-$2" flags=
		shift 2
		[ "$v" = VERIF_BIN_NOOPT ] && flags="-gcflags=github.com/shellyln/...=-N -l"
		if ! env "$@" go build -trimpath "${flags:--v}" -o "$f" . >"$tmp/build.log" 2>&1; then
			tail -n 30 "$tmp/build.log" >&2
			exit 2
		fi
		export "$v=$f"
	}
	build VERIF_BIN_386 386 GOARCH=386
	build VERIF_BIN_NOOPT noopt GOARCH=amd64
	build VERIF_BIN_V3 v3 GOAMD64=v3
	export VERIF_ZONEINFO="$(go env GOROOT)/lib/time/zoneinfo.zip"
	;;
C21)
	if ! (cd /repo && GOOS=js GOARCH=wasm go build -trimpath -o "$tmp/soql.wasm" ./wasm) >"$tmp/build.log" 2>&1; then
		tail -n 30 "$tmp/build.log" >&2
		exit 2
	fi
	export VERIF_WASM="$tmp/soql.wasm" VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js" VERIF_WASM_DRIVER="$tmp/harness/wasm_driver.js"
	;;
esac

case $id in
replay) "$tmp/verif" replay "$arg" ;;
gen) "$tmp/verif" gen "${2:-10}" "${3:-1}" ;;
*)
	mkdir -p "$here/evidence"
	"$tmp/verif" run "$id" "$arg" "$seed" "$here/evidence"
	;;
esac
