#!/bin/sh
# replay.sh replays/<id>/<unit>.json : runs the recorded input on the real code under ASan/UBSan
exec python3 "$(dirname "$0")/../run_check.py" --replay "$1"
