#!/bin/bash
# all quick checks, one line each
cd "$(dirname "$0")/.."
for f in ${*:-checks/c[0-9][0-9].py}; do
  i=$(basename "$f" .py | tr c C)
  r=$(python3-vt run.py "$i" 2>&1); e=$?
  echo "$e $(echo "$r" | grep -a '^C[0-9]* quick')"
  echo "$r" | grep -a 'VIOLATION\|INCONCL\|MISMATCH' | head -5 | cut -c1-200
done
