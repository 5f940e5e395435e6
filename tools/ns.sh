#!/bin/bash
# ns.sh CMD...: runs CMD in a mount namespace where /repo and the build output are scratch copies under /tmp/pv ($NSDIR),
# so that planted bugs can be tried while something else uses the real /repo.
set -e
export D=${NSDIR:-/tmp/pv}
mkdir -p $D/target $D/replay $D/evidence /verif/replay /verif/evidence /verif/sim/target
[ -d $D/repo ] || cp -a /repo $D/repo
[ "$(git -C $D/repo rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "refresh $D/repo"; exit 1; }
exec unshare -Urm bash -c '
for x in repo:/repo target:/verif/sim/target replay:/verif/replay evidence:/verif/evidence; do
  mount --bind $D/${x%%:*} ${x#*:} || exit 1
done
exec "$@"' ns "$@"
