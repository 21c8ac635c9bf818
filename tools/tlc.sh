#!/bin/bash
# developer shortcut: tools/tlc.sh Module [cfg]
T=/opt/veriftools/tla; cd /verif/spec
md=$(mktemp -d)
java -Xss256m -XX:+UseParallelGC -cp $(ls -d ../build/ov-* | head -1):$T/tla2tools.jar:$T/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -nowarning -metadir $md -workers 8 -config ${2:-$1}.cfg $1.tla | grep -vE "^(TLC2|Running|Parsing|Semantic|Starting|  Estimates|  because|  calc)"
rm -rf "$md"
