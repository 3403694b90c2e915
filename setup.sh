#!/bin/bash
# Nothing to compile: the specifications are interpreted by TLC and the drivers by the repository's Python environment.
# Checks that the tools and the code under test are there.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "no TLC"; exit 1; }
PYTHONPATH="$here:/repo/src" python -W ignore -c "import vf.common as c; c.assert_repo_import()" || exit 1
mkdir -p "$here/evidence"
