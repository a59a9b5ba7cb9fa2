#!/bin/bash
# usage: check.sh <property> <tier>
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec ./bin/sidcheck check "$1" "${2:-quick}" /repo evidence
