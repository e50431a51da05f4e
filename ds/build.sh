#!/bin/bash
# Builds the simulator around the current working tree of the system under test.
# usage: build.sh OUTDIR [race]      environment: VERIF_REPO (default /repo)
set -e
REPO=${VERIF_REPO:-/repo}
DS=$(cd "$(dirname "$0")" && pwd)
W=$1
mkdir -p "$W"
W=$(cd "$W" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1 CGO_CFLAGS="-O2 -g -I/opt/vp/rocksdb-compat"
hdrs=$(cat "$REPO"/indextree/b/cppbtree/cpp-btree-1.0.1/*.h 2>/dev/null | sha256sum | cut -c1-16)
export CGO_CXXFLAGS="-O2 -g -DVP_BTREE_HEADERS=0x$hdrs"
unset RANDFILE RANDCOUNT
export GOFLAGS=-mod=mod
cd "$DS"
# the module file: this module plus the system's own requirements, with RocksDB replaced by the simulated store
{
  echo "module verif.local/ds"; echo; echo "go 1.23"; echo
  echo "require github.com/smartbch/moeingads v0.0.0"
  sed -n '/^require/,/^)/p' "$REPO/go.mod"
  echo "replace github.com/smartbch/moeingads => $REPO"
  echo "replace github.com/tecbot/gorocksdb => $DS/gorocksdb"
  sed -n 's/^replace .*/&/p' "$REPO/go.mod"
} > "$W/go.mod"
cp "$REPO/go.sum" "$W/go.sum"
go build -o "$W/instrument" ./cmd/instrument
if [ "$2" = race ]; then
  # The simulator's own packages are not watched by the race detector (simrt only through go:norace).
  # The C++ code's loads and stores are recorded when clang is there (ds/cgotrace).
  bld() {
    (cd "$REPO" && GOFLAGS=-mod=readonly "$W/instrument" -race $1 -repo "$REPO" -out "$W/srcr" -tags cppbtree) || return 1
    go build -race -gcflags='verif.local/ds/...=-race=false -l' -gcflags='verif.local/ds/simatomic=-race=true' \
      -gcflags='verif.local/ds/simrt=-race=true' -gcflags='github.com/tecbot/gorocksdb=-race=false -l' \
      -modfile="$W/go.mod" -overlay "$W/srcr/overlay.json" -tags cppbtree -o "$W/sim-race" ./cmd/sim
  }
  locks=
  for f in mutex_lock mutex_trylock mutex_unlock rwlock_rdlock rwlock_wrlock rwlock_unlock; do locks="$locks -Dpthread_$f=simtrace_$f"; done
  if [ ! -x /usr/bin/clang++ ] || ! CXX=clang++ CGO_CXXFLAGS="$CGO_CXXFLAGS -fsanitize-coverage=func,trace-loads,trace-stores$locks" bld "-cgotrace $DS/cgotrace"; then
    bld
  fi
else
  (cd "$REPO" && GOFLAGS=-mod=readonly "$W/instrument" -repo "$REPO" -out "$W/src" -tags cppbtree)
  go build -modfile="$W/go.mod" -overlay "$W/src/overlay.json" -tags cppbtree -o "$W/sim" ./cmd/sim
fi
