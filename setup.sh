#!/bin/sh
# nothing to build: the checks import /repo's working tree; make sure that the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c "
import sys
sys.path[:0] = ['/repo', '.']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, quicktions, pysat, peano.dilation, lib.gen
print('setup ok: hypothesis', hypothesis.__version__, 'pools', len(lib.gen.pools()))
"
