#!/bin/bash
# Checks build what they need by themselves; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1; javac -version >/dev/null 2>&1; g++ --version >/dev/null
python3 -c "import run; run.java_classes()"
