#!/bin/bash
# check.sh PROPERTY quick|thorough: builds from /repo's current tree and runs one check.
# Exit 0: held on everything explored; 1: violation; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export MVDCHECK_DIR="$here"
cd "$here" || exit 2
exec harness/target/x86_64-unknown-linux-gnu/release/mvdcheck "$1" "${2:-quick}"
