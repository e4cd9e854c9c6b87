#!/bin/bash
# Builds the framework from the committed files: the Java class of the
# specifications, the packages of /repo and the drivers.
set -e
cd "$(dirname "$0")"
exec python3 -c '
import sys; sys.path.insert(0, "run")
import vlib
vlib.compile_java(); vlib.ninja(["drivers"])
print("ready")'
