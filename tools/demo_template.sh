#!/bin/bash
# Run with cwd = the repository. Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOENV=off
unset GOROOT GOWORK
cp "$D"/*.go "$T"/; cp "$D/go.work.sum" "$T"/
F=github.com/ngicks/go-fsys-helper
cat > "$T/go.mod" <<M
module demo
go 1.26.2
require (
	$F/fsutil v0.0.0-20260816154526-c6c8f4c0c36f
	$F/vroot v0.0.0-20260816141707-f9a55a9b10e0
)
M
cat > "$T/go.work" <<W
go 1.26.2
use (
	.
	$R/fsutil
	$R/stream
	$R/tarfs
	$R/vroot
	$R/vroot-adapter/overlayfs
	$R/vroot-adapter/sftpfs
)
replace (
	$F/fsutil v0.0.0-20260816154526-c6c8f4c0c36f => $R/fsutil
	$F/vroot v0.0.0-20260816141707-f9a55a9b10e0 => $R/vroot
	$F/vroot v0.0.0-20260528191442-457556e7ce33 => $R/vroot
)
W
cd "$T" && mkdir scratch && TMPDIR="$T/scratch" timeout 250 /opt/veriftools/go1.26.10/bin/go run .
