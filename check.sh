#!/bin/bash
# check.sh PROP [tier]: rebuild from /repo's working tree and run the simulation that decides PROP.
# check.sh replay FILE: replay a violation.
set -u
verif="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
mode=check; procs=""
file=""
if [ "$prop" = replay ]; then mode=replay; file="$(readlink -f "$2")"; prop="$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)"; fi
M=github.com/samuel/go-dsp
case "$prop" in
  S0*) fam=server; pkgs="$M/boripserver";;
  C0*) fam=client; pkgs="$M/borip";;
  E02) fam=rx; pkgs="$M/borip,$M/borip/example";;
  E0*) fam=e2e; pkgs="$M/boripserver,$M/borip";;
  A0*) fam=ax25; pkgs="$M/dsp/ax25";;
  D06) fam=dtmf; pkgs="$M/dsp,$M/dsp/dtmf,$M/zzdtmffile";;
  D0*|D10) fam=dsp; pkgs="$M/dsp,$M/dsp/dtmf";;
  D11) fam=cpu; pkgs=""; procs=-procs;;
  *) echo "unknown property $prop"; exit 2;;
esac
export GOPROXY=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local GO111MODULE=on GOSUMDB=off CGO_ENABLED=0 GOARCH=amd64
export HOME="${HOME:-/root}"
# build output lives beside this script, in an ignored directory, one per check so that checks can run side by side
out="${VERIF_BUILD:-$verif/.build}/$prop"
mkdir -p "$out" || exit 2
sed -e "s#=> /repo#=> $repo#" -e "s#=> ../rtlstub#=> $verif/rtlstub#" "$verif/sim/go.mod" > "$out/driver.mod" || exit 2
: > "$out/driver.sum"
cd "$verif/sim" || exit 2
go build -o "$out/instrument" ./cmd/instrument || { echo "ERROR cannot build the instrumenter"; exit 2; }
"$out/instrument" -repo "$repo" -out "$out" -modfile "$out/driver.mod" -simdir "$verif/sim" -base "$verif/sim/gomod/godsp.mod" -pkgs "$pkgs" $procs || { echo "ERROR cannot instrument the repository"; exit 2; }
go build -overlay "$out/overlay.json" -modfile "$out/driver.mod" -o "$out/driver" "./cmd/drv_$fam" || { echo "ERROR cannot build the simulation"; exit 2; }
[ "$mode" = build ] && exit 0
if [ "$mode" = replay ]; then
  exec "$out/driver" replay -file "$file" -sites "$out/sites.json"
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
exec "$out/driver" check -prop "$prop" -seed "$seed" -tier "$tier" -verif "$verif" -sites "$out/sites.json" ${VERIF_DUR:+-dur $VERIF_DUR}
