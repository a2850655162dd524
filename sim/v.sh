# v.sh PROP FROM TO : run seeds and list violations by class
E="env -i GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1 PATH=/usr/bin:/bin HOME=/nonexistent TZ=UTC GOTRACEBACK=all SIM_KNOWN="; export E
mkdir -p /tmp/v; rm -f /tmp/v/$1.*
seq $2 $3 | xargs -P ${J:-8} -I{} sh -c 'timeout 60 $E /verif/.build/simbin -prop '$1' -seed {} -tier ${TIER:-quick} -out /tmp/v/'$1'.{} >/tmp/v/'$1'.{}.e 2>&1; echo $? > /tmp/v/'$1'.{}.rc'
python3 - "$1" "$2" "$3" <<'P'
import sys,json,collections
p,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
d=collections.defaultdict(list);n=0;cnt=collections.Counter();sim=0
for s in range(a,b+1):
    rc=open(f"/tmp/v/{p}.{s}.rc").read().strip()
    if rc=="0":
        n+=1
        r=json.load(open(f"/tmp/v/{p}.{s}"));cnt.update(r["counts"]);cnt.update({"F:"+k:v for k,v in r["faults"].items()});sim+=r["sim_ns"]/1e9
        continue
    if rc=="10":
        r=json.load(open(f"/tmp/v/{p}.{s}"))
        d[r["violation"]["class"]].append((s,r["violation"]["msg"][:230]))
    else:
        e=open(f"/tmp/v/{p}.{s}.e").read()
        i=max(e.find("panic:"),e.find("fatal error"),0)
        d["rc"+rc].append((s,e[i:i+700]))
print("ok",n,dict(cnt),"sim s",int(sim))
for k,l in d.items():
    print("==",k,len(l),[x[0] for x in l[:12]])
    for x in l[:2]: print("   ",x[0],x[1])
P
