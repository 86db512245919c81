#!/bin/bash
# tools/slots.sh SLOT id..  like detect.sh, on private copies of /repo and /verif (a mount namespace of its own), so several
# can run at once and the real trees stay free. Copies live in /tmp/iso/SLOT and are left there for the next call.
s=$1; shift
d=/tmp/iso/$s; mkdir -p $d/repo $d/verif
rsync -a --delete --exclude /target --exclude /.git/index.lock /repo/ $d/repo/
rsync -a --delete --exclude /out /verif/ $d/verif/
exec unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && ./tools/detect.sh $*"
