cd /verif; (ulimit -v 12000000; timeout 400 python3 /tmp/t2.py "$@" 2>&1)
