#!/bin/bash
# builds the harness and generates the scenarios
cd "$(dirname "$0")" && . ./env.sh
set -e
python3 tools/build.py
python3 tools/suites.py
