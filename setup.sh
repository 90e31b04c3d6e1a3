#!/bin/bash
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd)
export VERIF_DIR
. "$VERIF_DIR/build.sh"
