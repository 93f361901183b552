#!/bin/bash
# run.sh ID TIER: builds the checker against /repo's working tree and runs one check.
# run.sh replay FILE: replays a recorded case.
. "$(dirname "$0")/env.sh"
bin=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 2
chmod 755 "$bin"
trap 'rm -rf "$bin"' EXIT
cp "$VERIF_DIR/mc/go.mod" "$VERIF_DIR/mc/go.sum" "$bin/"
mc() { (cd "$VERIF_DIR/mc" && go build -modfile="$bin/go.mod" "$@"); }
fail() { echo "build failed"; exit 2; }
id=$1
[ "$id" = replay ] && id=$(sed -n 's/.*"op": "\(C[0-9]*\).*/\1/p' "$2")
mc -o "$bin/mc" . || fail
[ "$id" = build ] && exit 0
if grep -qw "$id" <<<"C17 C25 C26 C27 C28 C29 C30 C34"; then
  (cd /repo && go build -o "$bin/cddlc" ./cmd/cddlc) || fail
  export MC_CLI=$bin/cddlc
fi
if [ "$id" = C22 ]; then # what generated files may import
  (cd /repo && go list -mod=readonly -export -deps -f '{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}' ./...) >"$bin/exports" || fail
  export MC_EXPORTS=$bin/exports
fi
if grep -qw "$id" <<<"C20 C28"; then # the same program over instrumented sources, for schedules
  if mkdir "$bin/src" && mc -o "$bin/instr" ./instr && "$bin/instr" "$bin/src" /repo "$VERIF_DIR/mc/sched" &&
    mc -race -tags sched -overlay "$bin/src/overlay.json" -o "$bin/mcsched" .; then
    export MC_SCHED=$bin/mcsched
  else
    echo "note: no instrumented build, schedules are not explored"
  fi
fi
if [ "$1" = replay ]; then
  "$bin/mc" replay "$2"; exit $?
fi
"$bin/mc" run "$1" "$2"
exit $?
