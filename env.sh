# Sourced by run.sh / setup.sh.
export HOME=/root
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOSUMDB=off GONOSUMDB='*' GOFLAGS= CGO_ENABLED=1
VBUILD=$here/build
# build_harness [race]: prints the path of the binary.
build_harness() {
  mkdir -p "$VBUILD" || return 1
  exec 9>"$VBUILD/.lock"; flock 9
  # Own go.mod: requirements of /repo plus porcupine; nothing tracked is rewritten.
  { echo "module verif.local/harness"; echo; echo "go 1.21"; echo
    sed -n '/^require/,/^)/p;/^exclude/,/^)/p' /repo/go.mod
    grep '^replace ' /repo/go.mod
    echo 'require github.com/Vivino/rankdb v0.0.0'
    echo 'require github.com/anishathalye/porcupine v1.3.1'
    echo 'replace github.com/Vivino/rankdb => /repo'; } > "$VBUILD/harness.mod.new"
  if ! cmp -s "$VBUILD/harness.mod.new" "$VBUILD/harness.mod.src"; then
    cp "$VBUILD/harness.mod.new" "$VBUILD/harness.mod.src"
    cp "$VBUILD/harness.mod.new" "$VBUILD/harness.mod"
    cp /repo/go.sum "$VBUILD/harness.sum"
  fi
  local out=$VBUILD/vh flags=
  if [ "$1" = 1 ]; then out=$VBUILD/vh-race; flags="-race -gcflags=all=-d=checkptr=0"; fi
  ( cd "$here/harness" && go build -mod=mod -modfile="$VBUILD/harness.mod" $flags -o "$out" . ) >&2 || { flock -u 9; return 1; }
  flock -u 9
  echo "$out"
}
# build_server: builds the real server, race instrumented, beside the harness.
# "safe" only makes the pinned msgpack library (ugorji/go/codec 1.1.7) use
# reflect for maps: its default relies on runtime internals that Go 1.24 changed.
build_server() {
  exec 8>"$VBUILD/.srvlock"; flock 8
  ( cd "$here/harness" && go build -tags safe -mod=mod -modfile="$VBUILD/harness.mod" -race -gcflags=all=-d=checkptr=0 -o "$VBUILD/rankdb-srv" github.com/Vivino/rankdb/cmd/rankdb ) >&2 || { flock -u 8; return 1; }
  flock -u 8
}
