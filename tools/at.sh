#!/bin/bash
# at.sh TREE ID [tier ...]: run a check against another tree than /repo, from a private copy of /verif.
T=$1; shift
V=$(mktemp -d /tmp/at.XXXXXX); trap 'rm -rf "$V"' EXIT
tar -C /verif --exclude=.git --exclude=evidence --exclude=seeded -cf - . | tar -C $V -xf -
sed -i "s#=> /repo#=> $T#" $V/go.mod
grep -rl '/repo' $V/run.sh $V/lib $V/cmd $V/checks $V/mcrt 2>/dev/null | xargs -r sed -i "s#/repo\b#$T#g"
mkdir -p $V/evidence
cd $V && ./run.sh "$@"
