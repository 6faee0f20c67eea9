#!/bin/bash
# edgesdk.sh REPO OUT: a copy of the Fastly SDK the repository uses, in which the three calls into the host that
# FastlyServe depends on (sending a backend request, the simple cache, config stores) go to hooks the harness sets.
# Off the Fastly platform the originals only return "not implemented".
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(cd "$1" && go list -m -f '{{.Dir}}' github.com/fastly/compute-sdk-go) || exit 3
cp -a "$D" "$2" && chmod -R u+w "$2" || exit 3
sed -i 's/^func (req \*Request) Send(/func (req *Request) sendToHost(/' "$2/fsthttp/request.go" || exit 3
cp "$HERE/send.go.txt" "$2/fsthttp/verif_send.go" || exit 3
sed -i -e 's/^func Get(/func getFromHost(/' -e 's/^func GetOrSet(/func getOrSetFromHost(/' "$2/cache/simple/simple.go" || exit 3
cp "$HERE/simple.go.txt" "$2/cache/simple/verif_simple.go" || exit 3
sed -i -e 's/^func Open(/func openFromHost(/' -e 's/^func (s \*Store) Has(/func (s *Store) hasFromHost(/' \
  -e 's/^func (s \*Store) GetBytes(/func (s *Store) getFromHost(/' -e 's/^\tabiDict \*fastly.ConfigStore/&\n\tverifName string/' \
  -e 's/&Store{d}/\&Store{abiDict: d}/' "$2/configstore/configstore.go" || exit 3
cp "$HERE/configstore.go.txt" "$2/configstore/verif_configstore.go" || exit 3
