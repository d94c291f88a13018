#!/bin/bash
# run a check from the staging clone against the staging repo
cd /tmp/w/vv; VERIF_REPO=/tmp/w/rc exec python3 run.py "$@"
