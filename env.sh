export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
