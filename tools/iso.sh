#!/bin/bash
# runs a command on private copies of /verif and /repo (so that work can go on meanwhile): tools/iso.sh NAME CMD...
n=$1; shift
mkdir -p /tmp/iso/$n
rsync -a --delete --exclude /work --exclude /evidence /verif/ /tmp/iso/$n/verif/ 2>/dev/null || { rm -rf "/tmp/iso/$n/verif"; cp -a /verif /tmp/iso/$n/verif; }
rm -rf "/tmp/iso/$n/repo"; cp -a /repo /tmp/iso/$n/repo; git -C /tmp/iso/$n/repo checkout -q -- .
mkdir -p /tmp/iso/$n/verif/work /tmp/iso/$n/verif/evidence
exec unshare -Urm bash -c 'mount --bind /tmp/iso/'$n'/verif /verif && mount --bind /tmp/iso/'$n'/repo /repo && cd /verif && "$@"' x "$@"
