# dbgall.sh FILE names... : reg and panic analyses of entries
f=$1; shift
for n in "$@"; do echo "== $n"; for a in "rules_reg analyse" "rules_panic analyse"; do timeout 300 python3 dbg.py $f $n $a 2>&1 | grep "^('" | tr '\n' ' '; done; echo; done
