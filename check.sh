#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine and decides the property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./setup.sh >&2 || exit 2
exec ./bin/engine -tier "${2:-quick}" -verif "$PWD" "$1"
