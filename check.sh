#!/bin/bash
# check.sh <property> [--replay FILE] [--tier quick|thorough] [--seed N]
# Rebuilds the extensions from /repo's working tree (into git-ignored paths) and
# runs the monitors of one property against /repo/src.
cd "$(dirname "$0")" || exit 2
here=$PWD
. /opt/vp/env.sh
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
work=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache TMPDIR=$work/tmp
mkdir -p "$XDG_CACHE_HOME/astropy" "$TMPDIR"
if [ -z "$VMON_NOBUILD" ]; then
  exec 9>/tmp/vmon-build.lock
  flock 9
  if ! bash /opt/vp/build.sh --extensions >"$work/build.log" 2>&1; then
    cat "$work/build.log"; echo "BUILD-FAILED"; exit 2
  fi
  flock -u 9
  exec 9>&-
fi
export VMON_SRC=${VMON_SRC:-/repo/src}
export PYTHONPATH=$here:$VMON_SRC
"$PY" -m vmon.main "$@"
rc=$?
exit $rc
