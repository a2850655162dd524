# usage: r.sh PROP FROM TO
export GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1
for s in $(seq $2 $3); do timeout 60 /verif/.build/simbin -prop $1 -seed $s -out /tmp/o.$s >/tmp/e.$s 2>&1; rc=$?; echo "$s rc=$rc"; done
