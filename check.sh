#!/bin/bash
# Usage: check.sh <property> <quick|thorough>
# Builds the monitor against /repo's working tree and runs it for one property.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
. "$VERIF/env.sh"
RACE=""
case " C09 C19 C20 " in *" $ID "*) RACE="-race" ;; esac
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf -- "$TMP"' EXIT
if ! (cd "$VERIF/harness" && go build $RACE -o "$TMP/mon" .) >"$TMP/build.log" 2>&1; then
	cat "$TMP/build.log"
	echo "ERROR: the monitor does not build against /repo"
	exit 2
fi
mkdir -p "$VERIF/evidence"
export GORACE="halt_on_error=0 exitcode=0 log_path=$TMP/race"
export GOTRACEBACK=all
"$TMP/mon" -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF" >"$TMP/out.log" 2>"$TMP/err.log"
RC=$?
cat "$TMP/out.log"
REPLAY="$VERIF/evidence/replay-$ID-$TIER.log"
if cat "$TMP"/race.* >/dev/null 2>&1; then
	cat "$TMP"/race.* >"$REPLAY"
	N=$(grep -c "WARNING: DATA RACE" "$REPLAY")
	echo "the race detector reported $N data races"
	head -40 "$REPLAY"
	[ $RC -eq 1 ] || echo "VIOLATION property=$ID replay=$REPLAY"
	exit 1
fi
case $RC in
137 | 143) echo "ERROR: the monitor was killed from outside"; exit 2 ;;
0) exit 0 ;;
1) exit 1 ;;
3) tail -20 "$TMP/err.log"; exit 3 ;;
*)
	# The process running the library died: a crash that no caller can recover from.
	{ echo "the monitored process died with exit status $RC"; head -c 200000 "$TMP/err.log"; } >"$REPLAY"
	head -30 "$REPLAY"
	printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"the monitored process crashed","samples":["%s"]},"wall_s":0,"violations":1}\n' "$ID" "$TIER" "$SEED" "$REPLAY" >"$VERIF/evidence/$ID.json"
	echo "VIOLATION property=$ID replay=$REPLAY"
	exit 1
	;;
esac
