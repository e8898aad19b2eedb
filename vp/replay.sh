#!/bin/bash
# vp/replay.sh PROP UNIT.cc INPUT.replay CONTRACT?  -- rebuild the contract natively from /repo and run it on a recorded input
set -e
P=$1; U=$2; F=$3; C=${4:-$(basename "$F" | sed 's/\..*//')}
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
python3-vt - "$D" "$P" "$U" "$T" <<'PY'
import sys, importlib.util
d, p, u, t = sys.argv[1:5]
s = importlib.util.spec_from_file_location('c', d + '/check.py'); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
import shutil; shutil.copy(m.build_native(u, t, p), t + '/prog')
PY
ASAN_OPTIONS=detect_leaks=0:handle_sigill=0:handle_abort=0 "$T/prog" "$C" replay "$F"; echo "exit $?"
