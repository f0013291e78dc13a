. /opt/vp/env.sh; cp /verif/harness/go.mod /tmp/vhx.mod; cp /verif/harness/go.sum /tmp/vhx.sum
cd /verif/harness && gofmt -l . ; go vet -modfile=/tmp/vhx.mod ./... ; go build -modfile=/tmp/vhx.mod -o /tmp/vhx ./vh
