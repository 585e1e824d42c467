#!/bin/bash
# seed.sh ID PKG PROPERTY: turn the change made in the scratch copy /tmp/sb (cp -a of
# /repo) into /verif/seeded/ID, whose demo_test.go (a test of ./PKG) or demo.sh must
# already be there; confirm that it compiles, passes the tests and fails its demo.
id=$1 pkg=$2 prop=$3
d=/verif/seeded/$id
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cd /tmp/sb || exit 2
[ -n "$(git diff)" ] || { echo "no change"; exit 1; }
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
if [ -e "$d/demo_test.go" ]; then
cat > "$d/demo.sh" <<EOS
#!/bin/bash
# Runs demo_test.go as a test of ./$pkg. Working directory: the repository.
here=\$(cd "\$(dirname "\$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME="\${HOME:-/root}"
o=\$(mktemp)
trap 'rm -f "\$o"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" >"\$o"
go test $4 -overlay "\$o" -vet=off -count=1 -timeout 250s -run '^TestDemo\$' ./$pkg
EOS
fi
chmod +x "$d/demo.sh"
go build ./... || { echo "does not build"; git checkout -q -- .; exit 1; }
go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok' && { echo "tests fail"; git checkout -q -- .; exit 1; }
timeout 300 "$d/demo.sh" >/tmp/demo.with 2>&1; w=$?
git checkout -q -- .
timeout 300 "$d/demo.sh" >/tmp/demo.without 2>&1; wo=$?
echo "$id: with patch: $w, without: $wo"
[ $w = 0 ] && tail -5 /tmp/demo.with
[ $wo != 0 ] && tail -20 /tmp/demo.without
git -C /repo apply --check "$d/patch.diff" || echo "does not apply"
[ $w != 0 ] && [ $wo = 0 ] && grep -v '^$' /tmp/demo.with | head -4
