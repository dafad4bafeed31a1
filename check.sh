#!/bin/bash
# check.sh ID: decides one property of /repo's working tree. 0: it holds, 1: it is broken.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
id=$1
mkdir -p "$here/bin" "$here/evidence"
bin=$here/bin/wampcheck
(
	flock 9
	cd "$here/wampcheck" && go build -o "$bin" .
) 9>"$here/bin/.lock" >"$here/bin/build.log" 2>&1
rc=$?
if [ "$id" = build ]; then
	cat "$here/bin/build.log"
	exit $rc
fi
if [ $rc != 0 ]; then
	cat "$here/bin/build.log"
	echo "the analyser does not build"
	exit 2
fi
exec "$bin" -repo "${WAMPCHECK_REPO:-/repo}" -verif "$here" -prop "$id" -tier "${VERIF_TIER:-quick}"
