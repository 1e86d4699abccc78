#!/bin/bash
# nothing to compile: the checks import the working tree of /repo and only need
# the interpreter the package was installed for
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replays
PYTHONPATH="${VERIF_REPO:-/repo}/src:$PWD" exec /opt/venv/bin/python -B -W ignore -c 'import vf.core, vf.gen, vf.same, vf.opts; print("ready:", vf.core.env.hs.__file__)'
