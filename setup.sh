#!/bin/bash
# Everything is Python or compiled by the checks themselves; this only makes
# sure that what they need is present.
cd "$(dirname "$0")" || exit 1
for t in python3 gcc clang make flex bison; do
	command -v $t >/dev/null || { echo "missing: $t"; exit 1; }
done
mkdir -p evidence
python3 -c 'import sys; sys.path.insert(0, "."); from lib import core, model, isa, gen, formats, build'
