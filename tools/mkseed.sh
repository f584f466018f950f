#!/bin/bash
# mkseed.sh id [repo copy]: takes the current change of the copy's working tree as seeded/<id>/patch.diff, checks the demo both ways and restores
id=$1; cd "${2:-/tmp/w/repo}" || exit 1
git diff -- src > /verif/seeded/$id/patch.diff
[ -s /verif/seeded/$id/patch.diff ] || { echo "empty patch"; exit 1; }
bash /verif/seeded/$id/demo.sh; rc1=$?
git checkout -q -- .
bash /verif/seeded/$id/demo.sh; rc0=$?
echo "$id: patched rc=$rc1 clean rc=$rc0"
