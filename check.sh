#!/bin/bash
# check.sh PROPERTY [--replay FILE]: rebuilds from /repo's working tree, then searches (or replays).
cd "$(dirname "$0")" || exit 3
bash tools/build.sh || { echo "the program under test does not build" >&2; exit 4; }
exec python3 -m vsim.main "$@"
