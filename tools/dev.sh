#!/bin/bash
# dev.sh "PROPS" N [width] [lines]: build once into /tmp/vdev, explore each property with every failing run printed.
cd /verif; export TMPDIR=/tmp/vdev; rm -rf /tmp/vdev; mkdir -p /tmp/vdev
bash check.sh build ${FAM:-codec} > /tmp/vdev/log 2>&1; W=$(ls -d /tmp/vdev/vsim-[0-9]* | head -1); head -5 /tmp/vdev/log
for p in $1; do echo "== $p"; GOMAXPROCS=1 $W/harness.bin -mode explore -prop $p -n ${2:-3000} -wall 60 -v 2>/tmp/vdev/err.$p | cut -c1-400 | grep -c '"nondet"'; wc -l < /tmp/vdev/err.$p; cut -d' ' -f2- /tmp/vdev/err.$p | cut -c1-${3:-300} | sort | uniq -c | sort -rn | head -${4:-30}; done
