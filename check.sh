#!/bin/bash
# check.sh ID [--tier quick|thorough]: builds from /repo's working tree, then searches.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
id="$1"
shift
case "$id" in
    C18 | C19 | C20 | C21 | C22 | C25 | C27 | C28) "$here/build.sh" ssr || exit 3 ;;
    C23) "$here/build.sh" both || exit 3 ;;
    *) "$here/build.sh" browser || exit 3 ;;
esac
exec node --max-old-space-size=6000 sim/main.js check "$id" "$@"
