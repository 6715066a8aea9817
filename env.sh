export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
