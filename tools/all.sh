#!/bin/bash
# runs every (or the given) registered check, one after another, printing the summary lines
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
for p in ${@:-$(python3 -c "import scenarios; print(*sorted(scenarios.PROPS))")}; do timeout ${LIM:-900} python3 check.py $p $tier; echo "== $p rc=$?"; done
