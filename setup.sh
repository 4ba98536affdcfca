#!/bin/sh
# Nothing to install: every check builds what it needs from the committed files and /repo.
set -e
cd "$(dirname "$0")"
verus --version >/dev/null
cargo --version >/dev/null
python3 tools/gen_properties.py >/dev/null
