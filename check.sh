#!/bin/sh
# check.sh PROPERTY [quick|thorough]: rebuild the engine, encode /repo's current tree, decide the property.
cd "$(dirname "$0")" || exit 2
sh dev.sh || exit 2
exec ./bin/engine check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -root "$PWD"
