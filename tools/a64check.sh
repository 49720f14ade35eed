#!/bin/bash
# Conformance of the 64-bit ARM interpreter (harness/a64): runs the test binaries of the Go standard library built
# for arm64 under it. Tests that fork, use the network or turn a memory fault into a panic are left out: the
# interpreter has no fork, sockets or signals. Takes about six minutes.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-buildvcs=false
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -O2 -fwrapv -fno-strict-aliasing -o "$tmp/a64" "$here/harness/a64/a64.c" -lm || exit 2
src=$(go env GOROOT)/src
export tmp src
one() {
	n=$(echo "$1" | tr / _)
	cd "$src" && GOARCH=arm64 go test -c -o "$tmp/$n" "$1" || exit 1
	cd "$src/$1" && GODEBUG=asyncpreemptoff=1 GOMAXPROCS=1 timeout 800 "$tmp/a64" "$tmp/$n" -test.short \
		-test.skip 'TestHTTPDecoding|TestMutexMisuse|TestNilDeref|TestCASTPasses|TestCASTFailures|TestIntegrityCheck|TestIntegrityCheckFailure|TestAutoGCM|TestIssue76126|TestGCMNoncesFIPS|Subprocess' > "$tmp/$n.log" 2>&1
	r=$?
	echo "$1 rc=$r"
	[ $r = 0 ] || { grep -m5 -E 'a64:|--- FAIL|panic:' "$tmp/$n.log"; exit 1; }
	rm -f "$tmp/$n"
}
export -f one
printf '%s\n' math/big crypto/internal/fips140test crypto/sha3 compress/flate internal/runtime/maps regexp strconv encoding/json \
	math math/bits math/cmplx math/rand crypto/aes crypto/sha256 crypto/sha512 crypto/md5 crypto/elliptic crypto/ecdsa crypto/ed25519 \
	hash/crc32 hash/maphash bytes strings sort fmt encoding/binary encoding/hex sync sync/atomic container/heap internal/runtime/atomic bufio \
	slices maps unicode/utf8 text/tabwriter index/suffixarray container/list crypto/sha1 crypto/rc4 crypto/des crypto/cipher |
	xargs -P 8 -I{} bash -c 'one {}' || { echo "interpreter check FAILED"; exit 1; }
echo "interpreter check passed"
