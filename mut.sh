#!/bin/bash
# mut.sh PID FILE 's/a/b/' [filter] : run the VCs against a copy of the package with one line edited
D=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/pm4py $D/; sed -i "$3" $D/pm4py/$2; diff -r /repo/pm4py $D/pm4py | head -8
VERIF_REPO=$D python3-vt /verif/pyvc_run.py $1 $4; rm -r "$D"
