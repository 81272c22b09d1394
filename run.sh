#!/bin/bash
# run.sh ID             run the check of one property (VERIF_TIER, VERIF_SEED)
# run.sh --replay FILE  re-run a recorded failure
# Further arguments go to the driver (e.g. -vscale 0.1 -vsub name).
# Exit: 0 held, 1 violation, 2 anything else.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOSUMDB=off
js=/opt/veriftools/go1.24.13 # has the files needed to run js/wasm programs
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case $1 in
  --replay) file=$(realpath "$2") || exit 2; shift 2
    id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
    mode=(-vreplay "$file") ;;
  *) id=$1; shift; mode=(-vprop "$id" -vtier "$tier" -vseed "$seed") ;;
esac
scratch=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/tmp" && export TMPDIR="$scratch/tmp"
{
  echo '{"Replace": {'
  sep=
  for d in ref core checks cmd mine yield; do
    for f in "$here/harness/$d"/*.go; do
      [ -e "$f" ] || continue
      printf '%s"%s/zzverif/%s/%s": "%s"' "$sep" "$repo" "$d" "$(basename "$f")" "$f"; sep=$',\n'
    done
  done
  printf '%s"%s/examples/ui/one/x_verif_test.go": "%s/harness/ui/x_verif_test.go"' "$sep" "$repo" "$here"
  if [ "$id" = X04 ]; then # the app's loop, taking any source of events
    sed -e 's/^func loop(\([a-zA-Z_]*\) \*app\.Window)/func loop(\1 interface{ NextEvent() event.Event })/' \
      -e '0,/^import (/s//import (\n\t"gioui.org\/io\/event"/' "$repo/examples/ui/one/main.go" > "$scratch/main.go"
    printf ',\n"%s/examples/ui/one/main.go": "%s/main.go"' "$repo" "$scratch"
  fi
  echo '}}'
} > "$scratch/overlay.json"
cp "$repo/go.mod" "$scratch/go.mod" && cp "$repo/go.sum" "$scratch/go.sum" || exit 2
sed -i "s/^go 1\.22.*/go 1.23.0/" "$scratch/go.mod" # rapid needs it
printf '\nrequire pgregory.net/rapid v1.3.0\n' >> "$scratch/go.mod"
printf '%s\n%s\n' \
  'pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=' \
  'pgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=' >> "$scratch/go.sum"
race=()
cd "$repo" || exit 2
if [ "$id" = X02 ]; then
  race=(-race)
  # the library with a possible delay before every statement, if that compiles
  mkdir "$scratch/points"
  mapfile -t dirs < <(find . -name '*.go' ! -name '*_test.go' -mindepth 2 ! -path './examples/*' ! -path './.*/*' -printf '%P\n' | xargs -n1 dirname | sort -u)
  sed '$s/}}$//' "$scratch/overlay.json" > "$scratch/points.json" &&
    go run "$here/harness/points/main.go" "$repo" "$scratch/points" "${dirs[@]}" >> "$scratch/points.json" &&
    printf '\n}}\n' >> "$scratch/points.json" &&
    go build -race -overlay "$scratch/points.json" -modfile "$scratch/go.mod" -ldflags '-X github.com/mearaj/bips/zzverif/yield.Built=1' \
      -o "$scratch/bin" ./zzverif/cmd && race=()
fi
if [ "$id" = MINE ]; then
  go build -overlay "$scratch/overlay.json" -modfile "$scratch/go.mod" -o "$scratch/bin" ./zzverif/mine || exit 2
elif [ "$id" = X04 ]; then
  go test -c -vet=off -overlay "$scratch/overlay.json" -modfile "$scratch/go.mod" -o "$scratch/bin" ./examples/ui/one || exit 2
elif [ ! -e "$scratch/bin" ]; then
  go build "${race[@]}" -overlay "$scratch/overlay.json" -modfile "$scratch/go.mod" -o "$scratch/bin" ./zzverif/cmd || exit 2
fi
if [ "$id" = X07 ]; then # the same program for other platforms
  for target in 386 wasm; do
    case $target in
      386) env=(GOOS=linux GOARCH=386 CGO_ENABLED=0) go=go ;;
      wasm) env=(GOOS=js GOARCH=wasm CGO_ENABLED=0) go=$js/bin/go ;;
    esac
    if ! env "${env[@]}" "$go" build -overlay "$scratch/overlay.json" -modfile "$scratch/go.mod" -o "$scratch/bin.$target" ./zzverif/cmd 2> "$scratch/err"; then
      cat "$scratch/err" >&2
      # code of the library that this platform can't compile is a violation
      grep -qE '^(bip32|bip39|bip44|util)/[a-z0-9_]+\.go:[0-9]+' "$scratch/err" || exit 2
      mkdir -p "$here/replays"
      replay="$here/replays/X07-build-$target.json"
      jq -n --arg e "$(cat "$scratch/err")" --arg t "$target" '{property: "X07", sub: "build", platform: $t, message: $e}' > "$replay"
      echo "VIOLATION property=X07 replay=$replay"
      echo "  the library does not compile for $target"
      exit 1
    fi
  done
  export VERIF_PLATFORMS="386=$scratch/bin.386;wasm=node --stack-size=8192 $js/lib/wasm/wasm_exec_node.js $scratch/bin.wasm"
fi
cd "$scratch" || exit 2
limit=860
[ "$tier" = thorough ] && limit=7000
timeout -k 10 "${VERIF_LIMIT:-$limit}" "$scratch/bin" "${mode[@]}" -verif "$here" "$@"
rc=$?
[ $rc -le 1 ] || rc=2
exit $rc
