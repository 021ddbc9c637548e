#!/bin/bash
# ov.sh <pkg> <file> [run]: run a defect demonstration in-package through an overlay
here=$(cd "$(dirname "$0")" && pwd)
. /tmp/genv.sh 2>/dev/null
R=${VERIF_REPO:-/repo}
printf '{"Replace":{"%s/%s/zz_defect_test.go":"%s/%s"}}' $R $1 $here $2 > /tmp/ov.$$.json
cd $R && go test -vet=off -overlay /tmp/ov.$$.json ./$1 -run "${3:-Defect}" -count=1 $4
