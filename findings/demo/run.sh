#!/bin/bash
# Usage: run.sh [REPO]   runs the defect demonstrations against a tree (default /repo).
. /opt/vp/env.sh
R=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd); o=$(mktemp)
cat > $o <<J
{"Replace": {"$R/signify/x_verif_test.go":"$here/signify_verif_test.go","$R/crypto/x_verif_test.go":"$here/crypto_verif_test.go","$R/base64/x_verif_test.go":"$here/base64_verif_test.go"}}
J
cd $R && for t in $(grep -ho 'func TestDefect[A-Za-z]*' $here/*_test.go | sed 's/func //'); do
  for p in signify crypto base64; do
    grep -q "func $t(" $here/${p}_verif_test.go && { go test -overlay $o -vet=off -count=1 -timeout 60s -run "^$t\$" ./$p >$o.log 2>&1 && echo "PASS $t" || { echo "FAIL $t"; grep -m2 -E 'panic:|_verif_test.go:[0-9]+:' $o.log; }; }
  done; done; rm -f "$o" "$o.log"
