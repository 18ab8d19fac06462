#!/bin/bash
# offline self-test of the toolchain: the Java evaluation of module Rationals agrees with its TLA+ definitions
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "${tmp:?}"' EXIT
mkdir "$tmp/cls"
T=/opt/veriftools/tla
javac -nowarn -d "$tmp/cls" -cp $T/tla2tools.jar "$here"/spec/java/*.java
cd "$here/spec"
java -Djava.io.tmpdir="$tmp" -XX:+UseParallelGC -cp "$tmp/cls:$T/tla2tools.jar:$T/CommunityModules-deps.jar" tlc2.TLC -metadir "$tmp/meta" \
     -noGenerateSpecTE -config RationalsTest.cfg RationalsTest.tla | tail -5
