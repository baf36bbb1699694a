#!/bin/bash
# usage: check.sh <property> [extra gosym flags]
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_gosym || exit 2
exec .bin/gosym check -prop "$@"
