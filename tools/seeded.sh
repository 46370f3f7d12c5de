#!/bin/bash
# seeded.sh [ID...]: runs the check of its property against each of the planted bugs.
cd "$(dirname "$0")/.." || exit 9
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    echo "$d: $(tools/try.sh seeded/$d/patch.diff $p 2>&1 | tail -1)"
done
