#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="$here:$PYTHONPATH"
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
