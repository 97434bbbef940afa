export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB=* CGO_ENABLED=1
unset GOWORK
