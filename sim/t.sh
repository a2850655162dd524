# t.sh PROP SEED : trace one seed
E="env -i GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1 PATH=/usr/bin:/bin HOME=/nonexistent TZ=UTC GOTRACEBACK=all SIM_KNOWN="; export E
timeout 120 $E /verif/.build/simbin -prop $1 -seed $2 -tier ${TIER:-quick} -trace -out /tmp/t.out 2>&1 | sed 's/\x00\x00PB............//g' | tail -${3:-60}
