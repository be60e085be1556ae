#!/bin/bash
# run.sh ID [flags...]: builds the check of one property from the current /repo working tree and runs it.
# run.sh --setup: builds every variant once so that the Go build cache is warm.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
here=$PWD
. /opt/vp/env.sh
export GOFLAGS="-mod=mod" GOTOOLCHAIN=local GOPROXY=off

# group, race (0/1), instrumented packages (0 none, 1 all concurrent ones, 2 only the thread package)
config() {
  case "$1" in
    C15|C17|C35) group=live race=1 inst=1;;
    C0[1-9]|C1[0-46]|C28|C3[2-4]|C3[78]) group=live race=0 inst=1;;
    C20|C36) group=data race=1 inst=0;;
    C18|C19|C21|C22|C31) group=data race=0 inst=0;;
    C23) group=xmlnav race=0 inst=0;;
    C24) group=sets race=0 inst=0;;
    C25) group=guids race=0 inst=0;;
    C26) group=times race=0 inst=0;;
    C27) group=threads race=1 inst=2;;
    C29) group=nums race=0 inst=0;;
    C30) group=sigref race=0 inst=0;;
    *) echo "unknown property $1" >&2; exit 2;;
  esac
}

scratch=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
trap 'case "$scratch" in /tmp/verif-????????) rm -rf "$scratch";; esac' EXIT

build() { # group race inst -> $scratch/bin
  mkdir -p "$scratch/src"
  (cd harness && go build -o "$scratch/instr" ./cmd/instr) || return 1
  pk=()
  if [ "$3" = 1 ]; then pk=(/repo/sttp /repo/sttp/transport /repo/sttp/thread); fi
  if [ "$3" = 2 ]; then pk=(/repo/sttp/thread); fi
  VERIF_SITES=$("$scratch/instr" "$scratch/src" "$scratch/overlay.json" "$here/harness/instr/verifsched.go.txt" "${pk[@]}") || return 1
  export VERIF_SITES
  rf=(); if [ "$2" = 1 ]; then rf=(-race); fi
  (cd harness && go build "${rf[@]}" -overlay "$scratch/overlay.json" -o "$scratch/bin" "./$1") || return 1
}

if [ "$1" = --setup ]; then
  rc=0
  for id in C01 C15 C18 C20 C23 C24 C25 C26 C27 C29 C30; do
    config $id
    [ -d "harness/$group" ] || continue
    build "$group" "$race" "$inst" || rc=2
  done
  exit $rc
fi

id=$1; shift
config "$id"
if ! build "$group" "$race" "$inst"; then
  echo "the check for $id could not be built from the current tree" >&2
  exit 2
fi
"$scratch/bin" -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -scratch "$scratch" -evidence "$here/evidence/$id.json" -known "$here/known-findings.txt" "$@"
exit $?
