#!/bin/bash
# plant.sh ID...: confirm planted bugs in scratch copies: applies, builds, passes the stable tests, demo 0 clean / !=0 patched
cd "$(dirname "$0")/.."
one() {
  id=$1; d=/tmp/plant.$id; rm -rf "$d"; cp -a /repo "$d" || exit 1
  s=/tmp/plantdemo.$id; rm -rf "$s"; mkdir -p "$s"; cp -a seeded/$id/. "$s"; rm -f "$s"/patch.diff "$s"/meta.json
  ( cd "$d"; PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$s/demo.sh" >"/tmp/plant.$id.clean" 2>&1 ); c=$?
  if ! git -C "$d" apply "$PWD/seeded/$id/patch.diff"; then echo "$id: DOES NOT APPLY"; rm -rf "$d" "$s"; return; fi
  ( cd "$d"; PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$s/demo.sh" >"/tmp/plant.$id.bug" 2>&1 ); b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    ( cd "$d"; PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m compileall -q monero_glue monero_poc >/dev/null || echo BUILD; export PYTHONPATH=$d PYTHONHASHSEED=0; EC_BACKEND_FORCE=1 EC_BACKEND=1 timeout 900 /opt/venv/bin/python -m pytest -q -x -n 2 -p no:cacheprovider monero_glue_test >"/tmp/plant.$id.test" 2>&1 && EC_BACKEND=0 SKIP_TREZOR_TSX=1 timeout 900 /opt/venv/bin/python -m pytest -q -x -n 2 -p no:cacheprovider monero_glue_test >"/tmp/plant.$id.test" 2>&1 ); t=$?
  fi
  echo "$id: clean=$c bug=$b tests=$t $(tail -1 /tmp/plant.$id.bug | cut -c1-150)"
  rm -rf "$d" "$s"
}
export -f one
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
