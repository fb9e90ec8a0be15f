#!/bin/bash
# build.sh DEST VARIANT: the driver linked with the library built from $VERIF_REPO's (default /repo) working tree
set -e
. /opt/vp/env.sh
R=${VERIF_REPO:-/repo}; D=$1; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D"
cp "$R"/dune-project "$R"/cryptokit.opam "$D"/ 2>/dev/null || true
mkdir -p "$D"/src && cp -R "$R"/src/. "$D"/src/
mkdir -p "$D"/drv && cp "$H"/driver.ml "$D"/drv/driver.ml
cat > "$D"/drv/dune <<X
(executable (name driver) (libraries cryptokit zarith unix) (ocamlopt_flags (:standard ${3})) (flags (:standard -w -a)))
X
if [ "$2" = sw ]; then
  printf 'type %s value = This of %s | Auto\nlet enable_zlib = Auto\nlet enable_hardware_support = This false\n' "'a" "'a" > "$D"/src/config/config_vars.ml
fi
cd "$D" && dune build --root . --profile release ./drv/driver.exe > "$D"/build.log 2>&1
