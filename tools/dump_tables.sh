#!/bin/sh
# Regenerate harness/tables.json from spec/SegyTables.tla
here=$(cd "$(dirname "$0")/.." && pwd)
OUT="$here/harness/tables.json" "$here/bin/tlc" DumpTables DumpTables.cfg | tail -3
