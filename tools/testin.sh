#!/bin/bash
# testin.sh DIR: runs the stable tests of /opt/vp/BASELINE.json in a copy of the repository
cd "$1" || exit 2
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
timeout 330 go test -json -vet=off -count=1 -timeout 5m ./zygo/... ./cmd/... > $t/go.json 2>$t/err
go build -o $t/zygo ./cmd/zygo || exit 1
run() { if timeout -k 5 20 "$Z" -demo -exitonfail "$1" </dev/null >/dev/null 2>&1; then echo "PASS $1"; else echo "FAIL $1"; fi; }
export -f run; export Z=$t/zygo
printf '%s\0' tests/*.zy | xargs -0 -n 1 -P 4 bash -c 'run "$1"' _ > $t/scripts.txt
python3 - $t <<'P'
import json, sys
t = sys.argv[1]
ok = set()
for l in open(t + "/go.json"):
    try: d = json.loads(l)
    except ValueError: continue
    if d.get("Action") == "pass" and "Test" in d: ok.add(d["Test"]); ok.add(d["Package"] + "::" + d["Test"]); ok.add(d["Package"] + "." + d["Test"]); ok.add(d["Package"] + "/" + d["Test"])
for l in open(t + "/scripts.txt"):
    s, n = l.split()
    if s == "PASS": ok.add(n); ok.add(n.split("/")[-1])
st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
bad = [n for n in st if n not in ok and n.split("::")[-1] not in ok and n.split(":", 1)[-1] not in ok]
print("failing:", bad[:8], len(bad))
sys.exit(1 if bad else 0)
P
