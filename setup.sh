#!/bin/bash
# Nothing to build: the checks import the code under test from /repo.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python --jit off -c 'import sys; assert sys.version_info[0] == 3'
