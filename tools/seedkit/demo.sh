#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1
unset PYTEST_CURRENT_TEST
scratch="$(mktemp -d /tmp/seeddemo.XXXXXX)" || exit 99
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" && SCRATCH="$scratch" timeout 250 python -W ignore "$here/demo.py"
