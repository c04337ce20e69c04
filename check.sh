#!/bin/bash
# check.sh PROPERTY: builds the verifier and checks the property on /repo
cd "$(dirname "$0")" || exit 2
bash tools/setup.sh >/dev/null || { echo "the verifier does not build"; exit 2; }
exec bin/jv check -prop "$1"
