#!/usr/bin/env bash
# Usage: bash check.sh <property>. Builds the analyzer from the committed source
# and decides one property on the current source of the repository.
set -u
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
export VERIF_DIR="$PWD"
exec ./bin/xmldotverif -repo "${VERIF_REPO:-/repo}" -property "$1"
