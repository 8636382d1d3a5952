#!/bin/bash
# Nothing is compiled ahead: parse every specification once and make the working folders.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
cd spec && for f in *.tla; do
  tla-sany "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exit 0
