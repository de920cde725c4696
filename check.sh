#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current tree
# check.sh replay <file>                 re-run one recorded violation
# check.sh build <dir> [C20]             only build
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1

what=${1:?usage: check.sh C01 [quick|thorough]}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT

plain_build() { # <output>
  cp mc/go.mod "$tmp/mod.mod" && cp mc/go.sum "$tmp/mod.sum" || return 1
  (cd mc && go build -modfile "$tmp/mod.mod" -o "$1" .)
}

# Instrumented builds for the schedule exploration.
conc_build() { # <dir>
  local dep dirs
  cp mc/go.mod "$tmp/c.mod"; cp mc/go.sum "$tmp/c.sum"
  export MC_INSTR=0 MC_INSTR_WHY=
  (cd mc && go build -modfile "$tmp/c.mod" -o "$tmp/instr" ./instr) || return 1
  dep=$(cd mc && go list -modfile "$tmp/c.mod" -f '{{.Dir}}' github.com/aureleoules/ecdsa 2>/dev/null) || dep=-
  [ -n "$dep" ] || dep=-
  dirs=$(cd mc && go list -modfile "$tmp/c.mod" -deps -f '{{.Dir}}' . | grep -E '^/repo(/|$)')
  if "$tmp/instr" "$tmp/ins" "$dep" $dirs >"$tmp/why" 2>&1; then
    cp "$tmp/c.mod" "$tmp/i.mod"; cp "$tmp/c.sum" "$tmp/i.sum"
    if [ "$dep" != - ]; then
      cp "$dep/go.mod" "$tmp/ins/dep/" 2>/dev/null || printf 'module github.com/aureleoules/ecdsa\n\ngo 1.12\n' >"$tmp/ins/dep/go.mod"
      printf '\nreplace github.com/aureleoules/ecdsa => %s\n' "$tmp/ins/dep" >>"$tmp/i.mod"
    fi
    if (cd mc && go build -modfile "$tmp/i.mod" -overlay "$tmp/ins/overlay.json" -o "$1/mc" . &&
        go build -race -modfile "$tmp/i.mod" -overlay "$tmp/ins/overlay.json" -o "$1/mc-race" .) >"$tmp/why" 2>&1; then
      export MC_INSTR=1 MC_RACE_BIN="$1/mc-race"
      return 0
    fi
  fi
  export MC_INSTR_WHY="$(head -c 300 "$tmp/why" | tr '\n' ' ')"
  (cd mc && go build -modfile "$tmp/c.mod" -o "$1/mc" .) || return 1
  if (cd mc && go build -race -modfile "$tmp/c.mod" -o "$1/mc-race" .); then export MC_RACE_BIN="$1/mc-race"; fi
}

build() { # <property> <dir>
  if [ "$1" = C20 ]; then conc_build "$2"; else plain_build "$2/mc"; fi
}

# Environment variables the library itself looks at: part of the input space.
env_names() {
  find /repo -name '*.go' ! -name '*_test.go' -exec grep -hoE '(Getenv|LookupEnv)\("[A-Za-z_][A-Za-z0-9_]*"\)' {} + 2>/dev/null |
    sed 's/.*("\(.*\)")/\1/' | sort -u | grep -vE '^(PATH|HOME|TMPDIR|PWD|USER|GO.*|MC_.*|VERIF_.*)$'
}

# Run mc with each of those variables set to the given value.
with_env() { # <value> <command...>
  local v=$1 n; shift
  for n in $(env_names); do set -- "$n=$v" "$@"; done
  env "$@"
}

case $what in
setup) # warm the build cache; every check builds again from the working tree
  build C01 "$tmp" && build C20 "$tmp" || exit 2
  ;;
build)
  mkdir -p "$2" && build "${3:-C01}" "$2" || exit 2
  ;;
replay)
  prop=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
  build "$prop" "$tmp" || exit 2
  "$tmp/mc" replay "$2" || exit $?
  if [ -n "$(env_names)" ]; then
    for v in 1 true; do with_env $v "$tmp/mc" replay "$2" || exit $?; done
  fi
  ;;
C*)
  tier=${2:-${VERIF_TIER:-quick}}
  build "$what" "$tmp" || { echo "build failed" >&2; exit 2; }
  if [ "$what" != C20 ] && [ -n "$(env_names)" ]; then
    for v in 1 true; do
      with_env $v TMPDIR="$tmp" "$tmp/mc" run -prop "$what" -tier "$tier" -verif "$here" || exit $?
      [ "$what" = C21 ] || break
    done
  fi
  TMPDIR=$tmp "$tmp/mc" run -prop "$what" -tier "$tier" -verif "$here"
  ;;
*)
  exit 2
  ;;
esac
