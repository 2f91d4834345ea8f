#!/bin/bash
# tlc.sh MODULE CFG [tlc options]: TLC with the native overrides, run in spec/.
cd "$(dirname "$0")/spec"
M=$1; C=$2; shift 2
META=$(mktemp -d "${VP_TMP:-/tmp}/tlcmeta.XXXXXX")
java -XX:+UseParallelGC -Xmx${VP_XMX:-6g} -Xss64m -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.Overrides \
  -cp ../lib/vp-overrides.jar:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -workers ${VP_WORKERS:-auto} -metadir "$META" -noGenerateSpecTE -config "$C" "$@" "$M"
RC=$?
find "$META" -delete
exit $RC
