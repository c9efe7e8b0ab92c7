#!/bin/bash
# check.sh <property id>: rebuilds the harness from /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec node --allow-natives-syntax --stack-size=4000 mc/check.js "$1"
