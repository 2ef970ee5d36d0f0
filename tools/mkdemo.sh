#!/bin/bash
# mkdemo.sh <seed id> <package dir relative to the repo>: write the standard demo.sh.
cat > /verif/seeded/$1/demo.sh <<'D'
#!/bin/bash
# Runs demo_test.go as an in-package test of ./PKG of the repository in the working directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp go.mod "$t/demo.mod" && cp go.sum "$t/demo.sum" || exit 2
echo "{\"Replace\": {\"$PWD/PKG/zz_seed_demo_test.go\": \"$d/demo_test.go\"}}" > "$t/overlay.json"
TMPDIR=$t go test -mod=mod -modfile="$t/demo.mod" -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./PKG
D
sed -i "s#PKG#$2#g" /verif/seeded/$1/demo.sh
chmod +x /verif/seeded/$1/demo.sh
