#!/bin/bash
# Builds the engine from its committed source, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence || exit 2
cd engine && go build -o ../bin/engine.$$ . && mv ../bin/engine.$$ ../bin/engine
