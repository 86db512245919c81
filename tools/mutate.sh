#!/bin/bash
# tools/mutate.sh SLOT COUNT SEED [FILE-REGEX]: mutate.py on private copies of /repo and /verif (see slots.sh)
s=$1; shift
d=/tmp/iso/$s; mkdir -p $d/repo $d/verif
rsync -a --delete --exclude /target --exclude /.git/index.lock /repo/ $d/repo/
rsync -a --delete --exclude /out /verif/ $d/verif/
exec unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && mkdir -p $d/tmp && mount --bind $d/tmp /tmp && cd /verif && python3 tools/mutate.py $1 $2 /verif/mut.log '${3:-.}'"
