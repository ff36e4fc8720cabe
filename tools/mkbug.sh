#!/bin/bash
# tools/mkbug.sh ID : takes the diff of the scratch copy /tmp/scr/ID (made by tools/newbug.sh) into seeded/ID/patch.diff
set -e
id=$1; mkdir -p /verif/seeded/$id
git -C /tmp/scr/$id diff > /verif/seeded/$id/patch.diff
cat /verif/seeded/$id/patch.diff | head -40
