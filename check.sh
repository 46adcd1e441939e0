#!/bin/bash
# usage: check.sh ID   (reads VERIF_SEED and VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export DF_VERIF=$PWD
id=$1
ev=$PWD/evidence/$id.json
if [ "$id" = C32 ]; then
  # work is counted by sanitizer coverage, in a build of its own
  ./build.sh work || exit 2
  exec ./.build/target-work/x86_64-unknown-linux-gnu/release/dfmon run C32
fi
./build.sh release || exit 2
./.build/target-release/release/dfmon run "$id"
rc=$?
[ $rc = 0 ] || exit $rc

# Further passes with sanitizer builds of the same monitors. They add to the
# run above and never replace it; where a sanitizer cannot be built or started
# the evidence file says so.
parts=()
sanitized() { # name, share of the quick workload
  local part=$PWD/.build/evidence-$id-$1.json bin=$PWD/.build/target-$1/x86_64-unknown-linux-gnu/release/dfmon
  rm -f -- "$part"
  parts+=("$1=$part")
  if ! ./build.sh "$1" >/dev/null 2>&1 || ! "$bin" list >/dev/null 2>&1; then
    echo "note: no $1 build could be made or started here"
    return 0
  fi
  DF_NOLIMIT=1 DF_SLOW=10 DF_SCALE=$2 DF_EVIDENCE=$part VERIF_TIER=quick \
    ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 TSAN_OPTIONS=halt_on_error=1:abort_on_error=1 "$bin" run "$id"
}
if [ "$VERIF_TIER" = thorough ]; then
  sanitized asan 2 || exit $?
  if [ "$id" = C24 ]; then sanitized tsan 4 || exit $?; fi
  if [ "$id" = C01 ]; then
    ./miri.sh 900 || exit $?
    parts+=("miri=$PWD/.build/evidence-miri.json")
  fi
else
  if [ "$id" = C01 ]; then sanitized asan 0.5 || exit $?; fi
  if [ "$id" = C24 ]; then sanitized tsan 0.2 || exit $?; fi
fi
[ ${#parts[@]} = 0 ] && exit 0
python3 - "$ev" "${parts[@]}" <<'P'
import json, os, sys
e = json.load(open(sys.argv[1]))
runs = []
for a in sys.argv[2:]:
    name, f = a.split('=', 1)
    if not os.path.exists(f):
        runs.append({'tool': name, 'available': False})
        continue
    d = json.load(open(f))
    if name == 'miri':
        runs.append(d)
        continue
    c = d['coverage']
    runs.append({'tool': name, 'available': True, 'evaluations': c['evaluations'], 'distinct_nontrivial': c['distinct_nontrivial'],
                 'cases_by_family': c['cases_by_family'], 'observed_events': c['observed_events'], 'reports': d['violations'], 'wall_s': d['wall_s']})
    e['wall_s'] = round(e['wall_s'] + d['wall_s'], 2)
e['coverage']['sanitizer_runs'] = runs
json.dump(e, open(sys.argv[1], 'w'), indent=1)
P
exit 0
