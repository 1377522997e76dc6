#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     decide one property
#        check.sh setup                              build only
#        check.sh replay <file>                      run one saved case
# Builds the harness against /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
unset GORACE RAPID_CHECKS RAPID_SEED RAPID_STEPS RAPID_FAILFILE
out="$here/.build"
mkdir -p "$out" || exit 2

build() { # name, flags
	local name="$1" tmp; shift
	tmp="$(mktemp "$out/bin.XXXXXX")" || exit 2
	if ! (cd "$here/harness" && go build "$@" -o "$tmp" .); then
		rm -f "$tmp"
		echo "the harness does not build" >&2
		exit 2
	fi
	chmod +x "$tmp" && mv -f "$tmp" "$out/$name" || exit 2
}

case "$1" in
setup)
	build pbt
	build pbt-race -race
	exit 0 ;;
replay)
	build pbt
	id="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
	bin=pbt
	if [ "$id" = P22 ]; then build pbt-race -race; bin=pbt-race; fi
	exec "$out/$bin" -mode replay -file "$2" ;;
esac

id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac
bin=pbt
if [ "$id" = P22 ]; then build pbt-race -race; bin=pbt-race; else build pbt; fi
cd "$out" || exit 2
exec "$out/$bin" -mode check -id "$id" -tier "$tier" -seed "$seed" -dir "$here" ${VERIF_BUDGET:+-budget "$VERIF_BUDGET"}
