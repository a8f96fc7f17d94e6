#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on the current tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"
newest="$(find "$here/checker" -name '*.go' -newer "$here/bin/mediacheck" 2>/dev/null | head -1)"
if [ ! -x "$here/bin/mediacheck" ] || [ -n "$newest" ]; then
  bash "$here/setup.sh" || { echo "the checker does not build"; exit 2; }
fi
exec "$here/bin/mediacheck" -verif "$here" -repo /repo -prop "$id" -tier "$tier" -evidence "$here/evidence/$id.json"
