#!/bin/bash
# check.sh <property>: analyse /repo's current source for one property.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
bash "$here/setup.sh" || exit 2
unset GOFLAGS
GEGOV_HOME="$here" GEGOV_REPO="${GEGOV_REPO:-/repo}" exec "$here/bin/gegov" check "$1"
