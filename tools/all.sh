#!/bin/bash
# Runs every check one after another against /repo.
cd "$(dirname "$0")/.." || exit 2
for f in checks/c[0-9]*.py; do
  id=$(basename "$f" .py | tr c C)
  timeout 900 ./run.sh "$id" || echo "$id FAILED"
done
