#!/bin/bash
# digest.sh C09 [N] [WIDTH]   run a check and print a short digest of its violations (for its author)
cd /verif; rm -f /tmp/dg.$1
VERIF_DUMP=/tmp/dg.$1 timeout 900 ./check $1 >/tmp/dg.$1.out 2>&1; echo "exit $?"
grep "^C[0-9]*:\|^ERROR\|Error:" /tmp/dg.$1.out | cut -c1-200 | tail -20
[ -f /tmp/dg.$1 ] || { tail -5 /tmp/dg.$1.out | cut -c1-300; exit; }
cut -f1 /tmp/dg.$1 | cut -d: -f1 | sort | uniq -c | sort -rn | head -12
T=$(grep -c . /tmp/dg.$1); N=${2:-8}; [ $T = 0 ] && exit
awk -v s=$(( T / N + 1 )) 'NR%s==1 || s==1' /tmp/dg.$1 | cut -f2 | awk -v w=${3:-200} '{ if (length($0) > w) print substr($0,1,w/3) " ... " substr($0,length($0)-2*w/3); else print }'
