#!/bin/bash
# Builds the extensions of /repo's working tree in place (git-ignored paths).
cd "$(dirname "$0")" || exit 2
bash /opt/vp/build.sh --extensions >/tmp/vmon-setup.$$ 2>&1 || { cat /tmp/vmon-setup.$$; rm -f /tmp/vmon-setup.$$; exit 1; }
rm -f /tmp/vmon-setup.$$
mkdir -p evidence/replay
