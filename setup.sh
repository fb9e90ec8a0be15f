#!/bin/bash
# nothing to install: check that the tools the checks use are there
set -e
cd "$(dirname "$0")"
command -v python3-vt clang ocaml > /dev/null
python3-vt -c 'import z3'
mkdir -p evidence
