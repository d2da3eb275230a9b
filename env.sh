# the Go environment of the machinery; nothing is fetched
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
	export GOROOT=/opt/veriftools/go1.27.3
	export PATH="$GOROOT/bin:$PATH"
fi
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
