. /opt/vp/env.sh
export GOFLAGS=-mod=mod
