#!/bin/bash
# run.sh <property> [tier]: rebuild the analyser if needed and run one check against /repo.
cd "$(dirname "$0")" || exit 1
tier="${VERIF_TIER:-quick}"; [ -n "$2" ] && tier="$2"
if ! bash ./setup.sh >/tmp/ristcheck-setup.$$ 2>&1; then
  cat /tmp/ristcheck-setup.$$; rm -f /tmp/ristcheck-setup.$$
  echo "cannot build the analyser"; echo "VIOLATION property=$1 replay=/verif/setup.sh"; exit 1
fi
rm -f /tmp/ristcheck-setup.$$
exec ./.build/ristcheck -prop "$1" -repo /repo -out "$PWD" -tier "$tier"
