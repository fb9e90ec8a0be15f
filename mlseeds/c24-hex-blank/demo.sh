#!/bin/bash
# builds demo.ml against the library just built in the current directory and runs it
. /opt/vp/env.sh
R=$PWD; H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
cp "$H"/demo.ml "$T"/demo.ml; cd "$T" || exit 9
B=$R/_build/default/src
ocamlfind ocamlopt -w -a -package zarith,unix -linkpkg -I "$B" -I "$B"/.cryptokit.objs/byte -I "$B"/.cryptokit.objs/native cryptokit.cmxa demo.ml -o demo.exe > log 2>&1 || { cat log; exit 9; }
timeout 250 ./demo.exe
