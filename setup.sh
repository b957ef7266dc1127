#!/bin/bash
# build the MIR dumper and warm the dependency cache (every check does this itself when needed)
set -e
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/lib/getmir.sh" "$here/work/setup"
rm -f "$here/work/setup.crate.json" "$here/work/setup.spec.json"
