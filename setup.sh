#!/bin/bash
# Builds what the checks need inside /verif/build (offline): the system-call shim and a font cache.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p "$here/build" "$here/evidence" "$here/replays"
tmp="$here/build/shim.$$.so"
gcc -O1 -g -Wall -shared -fPIC -o "$tmp" "$here/dst/shim.c" -ldl -lpthread
mv "$tmp" "$here/build/shim.so"
if [ ! -d "$here/build/mplconfig" ]; then
  mkdir -p "$here/build/mplconfig.$$"
  MPLCONFIGDIR="$here/build/mplconfig.$$" MPLBACKEND=Agg "$PY" -c "import matplotlib.font_manager, matplotlib.pyplot" || exit 1
  mv "$here/build/mplconfig.$$" "$here/build/mplconfig" 2>/dev/null || true
fi
echo "setup done"
