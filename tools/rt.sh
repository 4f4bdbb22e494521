#!/bin/bash
# rebuild /repo and compare the stable tests with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 /verif/tools/cmpbase.py /tmp/t.json
