[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
build_gosym() {
	if [ "$1" = force ] || [ ! -x .bin/gosym ] || [ -n "$(find gosym -name '*.go' -newer .bin/gosym 2>/dev/null | head -1)" ]; then
		mkdir -p .bin
		(cd gosym && GOFLAGS=-mod=readonly go build -o ../.bin/gosym.$$ .) || return 1
		mv -f .bin/gosym.$$ .bin/gosym
	fi
}
