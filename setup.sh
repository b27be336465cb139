#!/bin/bash
# Nothing to build: checks that the interpreter, the solver and the repository are usable.
cd "$(dirname "$0")" || exit 1
echo '(check-sat)' | z3-new -in | grep -q sat || exit 1
exec ./run.sh P01 quick --list > /dev/null
