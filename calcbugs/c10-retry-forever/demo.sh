#!/bin/bash
# cwd: /repo after the build. Exit 0 when the calculator behaves, nonzero when it does not.
d=$(cd "$(dirname "$0")" && pwd)
timeout 120 python3 "$d/demo.py" "$PWD/example/calculator"
