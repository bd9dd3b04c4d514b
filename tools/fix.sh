#!/bin/bash
# fix.sh PROP "commit message" "what failed": commit the working tree of /tmp/wr (a clone of /repo) as a repair and record it.
# fix.sh sync: bring the repairs to /repo (not while vcheck runs).
set -e
if [ "$1" = sync ]; then
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  pgrep -f "vcheck" >/dev/null && { echo "vcheck is running"; exit 1; }
  git -C /repo pull -q --ff-only /tmp/wr HEAD; git -C /repo log --oneline | head -1; exit
fi
/verif/tools/seed.sh stable /tmp/wr
git -C /tmp/wr commit -qam "fix: $2"
python3 /verif/tools/kf.py fixed "$1" "$(git -C /tmp/wr rev-parse --short HEAD)" "$3"
