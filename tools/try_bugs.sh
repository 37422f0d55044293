#!/bin/bash
# runs the check of each planted bug's property with the bug applied to a copy of /repo that is shown at /repo
# in a mount namespace of its own (the real /repo and evidence stay as they are): try_bugs.sh [ids]
# PROP=P07 runs another property's check; PATCH=file.diff try_bugs.sh name... uses that patch instead
cd /verif
for d in ${@:-$(ls seeded)}; do
	patch=${PATCH:-seeded/$d/patch.diff}
	p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")}
	t=$(mktemp -d /tmp/try.XXXXXX)
	cp -a /repo "$t/repo"; mkdir "$t/evidence"
	git -C "$t/repo" apply "$(readlink -f "$patch")" || { rm -rf "$t"; continue; }
	s=$(date +%s)
	TRY=$t nice -n 19 unshare -Urm bash -c 'mount --bind $TRY/repo /repo && mount --bind $TRY/evidence /verif/evidence && cd /verif && exec ./check.sh '"$p"' quick' > /tmp/try-$d-$p.log 2>&1; rc=$?
	echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -h 'what:' /tmp/try-$d-$p.log | cut -c1-150)"
	rm -rf "$t"
done
