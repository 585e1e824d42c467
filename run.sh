#!/bin/bash
# run.sh ID TIER: build the harness against /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 3
export VH_VERIF="$PWD" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME="${HOME:-/root}"
umask 022
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
. ./lib.sh
refresh_ui
out=$(mktemp -d /tmp/vhbin-XXXXXX) || exit 3
trap 'rm -rf "$out"' EXIT
race=""
case " $RACE_IDS " in *" $id "*) race="-race";; esac
built=""
case " $SCHED_IDS " in *" $id "*)
  # without the delays if the instrumented copy should not compile
  if make_overlay "$out/ov" >"$out/log" 2>&1 &&
     (cd harness && go build $race -overlay "$out/ov/overlay.json" -o "$out/vh" .) >>"$out/log" 2>&1; then
    built=1; export VH_OVERLAY="$out/ov/overlay.json"
  fi;;
esac
if [ -z "$built" ] && ! (cd harness && go build $race -o "$out/vh" .) >>"$out/log" 2>&1; then
  cat "$out/log"; echo "BUILD-FAILED property=$id"; exit 3
fi
"$out/vh" run "$id" "$tier"
