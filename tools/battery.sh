#!/bin/bash
# battery.sh OUT: builds the battery against /repo, to run a case again
here=$(cd "$(dirname "$0")/.." && pwd)
python3 - "$here" > /tmp/jv-overlay.json <<'P'
import glob,json,os,sys
print(json.dumps({"Replace":{"/repo/zz_battery/"+os.path.basename(f):f for f in glob.glob(sys.argv[1]+'/battery/*.go')}}))
P
cd /repo && GOROOT=/opt/veriftools/go1.23.12 GOFLAGS=-buildvcs=false GOPROXY=off GOTOOLCHAIN=local GOWORK=off \
  /opt/veriftools/go1.23.12/bin/go build -overlay /tmp/jv-overlay.json -o "$1" ./zz_battery
