# builds the analyser into bin/ (offline, vendored dependencies); sourced or run
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-$here/.gocache}
mkdir -p "$here/bin"
newer=$(find "$here/gtv" -name '*.go' -newer "$here/bin/gtv" -print -quit 2>/dev/null)
if [ ! -x "$here/bin/gtv" ] || [ -n "$newer" ]; then
  (cd "$here/gtv" && go build -o "$here/bin/gtv.$$" . && mv "$here/bin/gtv.$$" "$here/bin/gtv")
fi
