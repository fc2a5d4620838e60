#!/bin/bash
# tools/old.sh REV CHECK [args]: run a check against an older revision of /repo
d=$(mktemp -d /tmp/old.XXXX); git -C /repo archive $1 src | tar x -C $d; shift
MC_REPO_SRC=$d/src /opt/venv/bin/python check.py "$@" | cut -c1-500 | tail -12; rm -rf $d
