#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on the current source of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
new=1
if [ -x "$here/tool/bin/vt" ] && [ -z "$(find "$here/tool" \( -name '*.go' -o -name '*.js' \) -newer "$here/tool/bin/vt" -print -quit)" ]; then new=0; fi
if [ $new = 1 ]; then bash "$here/build.sh" || exit 2; fi
export VERIF_OUT="${VERIF_OUT:-$here}"
exec "$here/tool/bin/vt" check "$1" "${2:-quick}"
