#!/bin/bash
# check.sh ID: build the harness against /repo's working tree and run one check.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p .build evidence out
id=$1
bin=.build/harness-$id
flags=()
[ "$id" = C18 ] && flags=(-race)
[ "$id" = C31 ] && flags=(-tags typed)
if ! (cd harness && go build "${flags[@]}" -o "../$bin" .) ; then
	echo "$id: the harness does not build against /repo"
	exit 3
fi
exec "./$bin" "$id"
