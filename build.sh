#!/bin/bash
# Builds the TLC operator overrides (java/vp) into lib/vp-overrides.jar.
set -e
cd "$(dirname "$0")"
JAR=lib/vp-overrides.jar
TLA=/opt/veriftools/tla/tla2tools.jar
mkdir -p lib
exec 9>lib/.lock; flock 9
if [ -f $JAR ] && [ -z "$(find spec/java -name '*.java' -newer $JAR)" ]; then exit 0; fi
T=$(mktemp -d "$PWD/lib/build.XXXXXX")
javac -nowarn -d "$T" -cp $TLA spec/java/vp/*.java 2>&1 | grep -v '^Note:' || true
test -f "$T/vp/Overrides.class"
(cd "$T" && jar cf ../new.jar vp)
mv lib/new.jar $JAR
find "$T" -delete
