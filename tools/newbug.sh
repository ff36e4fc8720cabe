#!/bin/bash
# tools/newbug.sh ID : scratch copy of /repo's HEAD in /tmp/scr/ID
set -e
mkdir -p /tmp/scr; rm -rf "/tmp/scr/$1"; git clone -q /repo "/tmp/scr/$1"
