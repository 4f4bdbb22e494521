#!/bin/bash
# quick private build of /repo/grayc in /tmp/b (development only)
cp -a ${SRC:-/repo}/grayc/src /tmp/b/grayc/ ; cd /tmp/b/grayc && MAKEFILES=/opt/vp/no-sqlite.mk make -s -j8 build 2>&1 | grep -i "error" ; true
