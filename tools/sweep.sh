#!/bin/bash
# Runs the check of its property against every planted bug (or those given)
# and prints one line each. Development aid; nothing registered calls it.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/seeded" || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=(*)
for id in "${ids[@]}"; do
	d=$(mktemp -d /tmp/sweep.XXXXXX)
	cp -a /repo "$d/repo"
	if git -C "$d/repo" apply "$here/seeded/$id/patch.diff"; then
		p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
		echo "$id $(COLS=300 "$here/tools/against.sh" "$d/repo" $p 2>&1 | tr '\n' '/')"
	else
		echo "$id DOES NOT APPLY"
	fi
	rm -rf "$d"
done
