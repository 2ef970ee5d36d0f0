#!/bin/bash
# revcheck.sh <commit> <check>...: run checks with one fix commit reverted, then restore.
c=$1; shift
git -C /repo diff $c $c^ > /tmp/rev.$$.diff
git -C /repo apply -3 /tmp/rev.$$.diff >/dev/null 2>&1 || { echo "cannot revert $c"; git -C /repo checkout -q HEAD -- .; exit 2; }
git -C /repo reset -q
for k in "$@"; do timeout 600 bash /verif/run.sh $k > /tmp/rev.$$.out 2>&1; echo "$c $k exit $?: $(grep -v '^\s' /tmp/rev.$$.out | head -1 | cut -c1-250)"; done
git -C /repo checkout -q HEAD -- .
rm -f /tmp/rev.$$.diff /tmp/rev.$$.out
