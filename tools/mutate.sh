#!/bin/bash
# mutate.sh SEED COUNT: runs mutate.py as nobody from a scratch copy of the committed /verif; results in /tmp/mut.SEED/out.jsonl
S=$1; D=/tmp/mut.$S
mkdir -p $D/verif && git -C /verif archive HEAD | tar -x -C $D/verif && rm -rf $D/verif/seeded && mkdir -p $D/verif/evidence && chown -R 65534:65534 $D
cd $D/verif && HOME=$D MUT_W=$D/w GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*' exec setpriv --reuid=65534 --regid=65534 --clear-groups nice -n 5 python3 tools/mutate.py $S $2 $D/out.jsonl
