#!/bin/bash
# seedcheck.sh ID...: confirm planted bugs in a scratch copy (applies, tests pass, demo 0 -> nonzero).
# NOTEST=1 skips the test suite.
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data ASTROPY_CONFIG_DIR=/opt/vp/astropy_config TZ=UTC PGTZ=Etc/GMT-12
for id in "$@"; do
  d=/verif/seeded/$id
  W=$(mktemp -d /tmp/seed.XXXXXX); chmod 711 "$W"; mkdir -m 711 "$W/tmp"; w=$W/repo
  cp -a /repo "$w"; cd "$w" || exit 2
  PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >"/tmp/sd_$id.log" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: patch does not apply"; cd /; /bin/rm -rf "$W"; continue; fi
  PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >>"/tmp/sd_$id.log" 2>&1; b=$?
  t=-
  if [ -z "$NOTEST" ]; then
    PATH=/opt/vp/pgbin:$PATH TMPDIR=$W/tmp PYTHONPATH=$w /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 \
      --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$W/junit.xml" tests >"/tmp/st_$id.log" 2>&1
    python3 /opt/vp/results.py "$W/out.json" "junit:$W/junit.xml" >/dev/null
    t=$(python3 - "$W/out.json" <<'P'
import json, sys
o = json.load(open(sys.argv[1]))
p = set(o.get("passed") or [])
bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in p]
print("ok" if not bad else "FAIL %d %s" % (len(bad), bad[:3]))
P
)
  fi
  echo "$id: demo clean=$a patched=$b tests=$t"
  cd /; /bin/rm -rf "$W"
done
