#!/bin/bash
# run.sh ID [--replay FILE]: builds the harness with the code in /repo's working
# tree and runs the check of one property. The harness is shown to the compiler
# as packages below /repo/zz_verif through an overlay; nothing is written to /repo.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off VERIF_DIR=$dir VERIF_REPO=${VERIF_REPO:-/repo}
# the zone of the machine must not matter
export TZ=Asia/Kathmandu
id=$1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
python3 "$dir/tools/overlay.py" "$VERIF_REPO" "$dir/harness" > "$tmp/overlay.json" || exit 2
case $id in
    C30) pkg=graph ;;
    C31) pkg=cli ;;
    C32) pkg=wasm ;;
    C33) pkg=server ;;
    C23) pkg=conc ;;
    C34) pkg=regen ;;
    *) pkg=check ;;
esac
cd "$VERIF_REPO" || exit 2
if ! go build -overlay "$tmp/overlay.json" -o "$tmp/check" "./zz_verif/cmd/$pkg" 2> "$tmp/build.log"; then
    cat "$tmp/build.log" >&2
    echo "the harness does not build with the code in $VERIF_REPO" >&2
    exit 2
fi
export VERIF_TMP=$tmp VERIF_OVERLAY=$tmp/overlay.json
if [ "$id" = C33 ] && unshare -Urn ip link set lo up 2> /dev/null; then
    # the server's port is a fixed one: give it a network of its own
    VERIF_ALONE=1 unshare -Urn sh -c 'ip link set lo up; exec "$0" "$@"' "$tmp/check" "$@"
    exit
fi
"$tmp/check" "$@"
