#!/bin/sh
# ck.sh PID : run one check and summarise
cd /verif && timeout 880 python3-vt check.py "$@" ; echo "exit $?"
