# sourced by the scripts: toolchains and an offline module setup
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=1
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
build_gover() {
  mkdir -p "$here/bin"
  (cd "$here/gover" && PATH="/opt/veriftools/go1.26.10/bin:$PATH" go build -o "$here/bin/gover.$$" . && mv "$here/bin/gover.$$" "$here/bin/gover")
}
