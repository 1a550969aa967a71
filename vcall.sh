#!/bin/sh
# Runs the proof layer of every property (or of those named) and prints what is not proved.
cd "$(dirname "$0")"
for f in ${*:-$(ls vc/c[0-9][0-9].py | sed 's/.*\(c..\).py/\1/' | tr c C)}; do
  s=$(date +%s); python3-vt -m vc.base $f ${TIER:-quick} - > /tmp/vcall.$f 2>&1
  echo "$f $(grep -c '^PROVED' /tmp/vcall.$f) proved, $(( $(date +%s) - s )) s"; grep -v '^PROVED' /tmp/vcall.$f | cut -c1-300; rm -f /tmp/vcall.$f
done
