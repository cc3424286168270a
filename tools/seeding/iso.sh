#!/bin/bash
# iso.sh COMMAND...: runs a command where /repo and /verif are copies of the real ones (the copy of /verif keeps its
# build output between calls). Nothing the command does to them reaches the real ones.
W=${ISO:-/tmp/iso}
mkdir -p $W/repo $W/verif
find $W/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -r {} +
(cd /repo && find . -mindepth 1 -maxdepth 1 ! -name target -exec cp -a {} $W/repo/ \;)
(cd $W/verif && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -r {} +)
(cd /verif && find . -mindepth 1 -maxdepth 1 ! -name target ! -name .git ! -name scratch -exec cp -a {} $W/verif/ \;)
[ -d $W/verif/target ] || cp -a /verif/target $W/verif/target
exec unshare -Urm bash -c 'mount --bind '$W'/repo /repo && mount --bind '$W'/verif /verif && cd /verif && "$@"' iso "$@"
