#!/bin/bash
# usage: miri.sh SECONDS   Runs a share of several monitors under Miri, as 32-bit programs, side by side.
cd "$(dirname "$0")/harness" || exit 2
root=$(cd .. && pwd)
export CARGO_TARGET_DIR=$root/.build/target-miri CARGO_NET_OFFLINE=true XDG_CACHE_HOME=$root/.build/cache DF_SLOW=1000
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
out=$root/.build/miri
mkdir -p "$out"
t=i686-unknown-linux-gnu
run() { # id, families left out, seed
  VERIF_SEED=$3 timeout -k 5 $((SECS * 3 + 600)) cargo +nightly miri run --offline --target $t -- solo "$1" "$SECS" "$2" >"$out/$1-$3" 2>&1
  echo $? >"$out/$1-$3.rc"
}
SECS=1
run C15 none 1
if [ "$(cat "$out/C15-1.rc")" != 0 ]; then
  echo "note: Miri could not be built or started here"
  tail -3 "$out/C15-1"
  echo '{"tool": "miri", "available": false}' >"$root/.build/evidence-miri.json"
  exit 0
fi
SECS=$1
s=${VERIF_SEED:-1}
J="C01:long,chains C03:big C06:none C16:none C18:many C20:big,long C25:none C28:none"
for j in $J; do run "${j%%:*}" "${j#*:}" "$s" & done
wait
rc=0; runs=
for j in $J; do
  f=$out/${j%%:*}-$s
  r=$(cat "$f.rc")
  line=$(grep '^solo [0-9]' "$f" | tail -1)
  runs="$runs${runs:+, }{\"monitor\": \"${j%%:*}\", \"result\": \"${line:-none ($r)}\"}"
  if [ "$r" != 0 ] && grep -q -E 'Undefined Behavior|^solo family' "$f"; then
    mkdir -p "$root/replays"
    cp "$f" "$root/replays/miri-${j%%:*}-$s.txt"
    grep -m3 -E 'Undefined Behavior|^solo family' "$f"
    echo "VIOLATION property=C01 replay=$root/replays/miri-${j%%:*}-$s.txt"
    rc=1
  elif [ "$r" != 0 ]; then
    echo "note: the Miri run of ${j%%:*} ended with $r"
  fi
done
echo "{\"tool\": \"miri, target $t\", \"available\": true, \"runs\": [$runs]}" >"$root/.build/evidence-miri.json"
exit $rc
