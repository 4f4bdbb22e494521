#!/bin/bash
# rt_at.sh DIR: stable tests against a scratch copy of the repository
D=$1; V=/tmp/seed/vp_$$; mkdir -p $V; cp /opt/vp/*.sh /opt/vp/*.py $V/; sed -i "s|^REPO=/repo|REPO=$D|; s|/opt/vp/results|$V/results|; s|\. /opt/vp|. $V|" $V/*.sh
grep -l '"/repo\|/repo/' $V/*.py
bash $V/test.sh $V/t.json >$V/log 2>&1; python3 /verif/tools/cmpbase.py $V/t.json; rm -rf $V
