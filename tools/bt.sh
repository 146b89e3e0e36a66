#!/bin/bash
# decodes the stack that DST_DEBUG=1 prints: bt.sh ID INDEX [VARIANT]
V=${3:-plain}
DST_DEBUG=1 python3 "$(dirname "$0")/../dst/check.py" one "$1" "$2" 2>&1 | grep -a 'devsim_py3.*(+0x' | head -40 |
while IFS= read -r l; do
  so=${l%%(*}; a=${l#*(+}; a=${a%%)*}
  echo "$(addr2line -Cfpe "$so" "$a")"
done
