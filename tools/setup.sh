#!/bin/bash
# nothing is kept between runs: this only proves that the driver builds and the tools are there
set -e
here="$(dirname "$(realpath "$0")")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash "$here/../driver/build.sh" "$d/driver"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
