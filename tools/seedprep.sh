#!/bin/bash
# scratch copy of the repository with its own build, for confirming planted changes
set -e
mkdir -p /tmp/sc; rm -rf /tmp/sc/repo; cp -a /repo /tmp/sc/repo
[ -d /tmp/sc/target ] || cp -a /opt/vp/target /tmp/sc/target
for f in prepare.py env.sh build.sh test.sh results.py BASELINE.json BUILD.json; do sed -e 's|/opt/vp/|/tmp/sc/|g; s|/repo|/tmp/sc/repo|g; s|"/opt/vp/ws"|"/tmp/sc/ws"|; s|/opt/vp|/tmp/sc|g' /opt/vp/$f > /tmp/sc/$f; done
sed -i 's|timeout -k 10 780|timeout -k 10 120|' /tmp/sc/test.sh
