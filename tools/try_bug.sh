#!/bin/bash
# try_bug.sh ID...: run the property's check on a copy of /repo with the planted bug (development tool)
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	d=$(mktemp -d /tmp/tryXXXXXX)
	cp -a /repo "$d/repo"
	git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "patch does not apply"
	s=$(date +%s)
	VP_REPO=$d/repo python3 /verif/check.py "$p" 2>&1 | tail -4 | cut -c1-250 | sed "s/^/$id: /"
	echo "$id: $(( $(date +%s) - s )) s"
	rm -rf "$d"
done
