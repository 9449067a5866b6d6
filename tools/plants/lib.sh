# Sourced by demo.sh: offline Go environment, scratch directory $w, the tool built from the working tree in $w/tool.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS="-mod=readonly -buildvcs=false" CGO_CFLAGS="-O1 -w"
w=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$w"' EXIT
(cd "$repo" && go build -o "$w/tool" .) || { echo "the tool does not build"; exit 2; }
export GOFLAGS="-mod=mod -buildvcs=false"
gen() { # gen DIR args...: run the tool in DIR
	local d=$1; shift
	(cd "$d" && timeout 60 "$w/tool" -fancy=false -nostamp "$@" 2>&1)
}
package() { # package NAME: generate from $here/foo.h, foo.yml, foo.c and main.go in $w/NAME
	local d=$w/$1
	mkdir -p "$d/cmd"
	printf 'module p\n\ngo 1.21\n' > "$d/go.mod"
	cp "$here"/foo.h "$here"/foo.yml "$d/"
	gen "$d" $(cat "$here/args" 2>/dev/null) foo.yml || return 1
	cp "$here"/foo.h "$d/foo/"
	[ -f "$here/foo.c" ] && cp "$here/foo.c" "$d/foo/"
	[ -f "$here/zz.go" ] && cp "$here/zz.go" "$d/foo/"
	[ -f "$here/main.go" ] && cp "$here/main.go" "$d/cmd/"
	return 0
}
same() { # same FILE TEXT
	if [ "$(cat "$1")" = "$2" ]; then return 0; fi
	echo "expected:"; echo "$2"; echo "got:"; tail -c 2000 "$1"; return 1
}
