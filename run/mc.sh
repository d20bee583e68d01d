#!/bin/bash
# dev helper: model check Module cfg
cd $(dirname $0)/../spec; timeout ${T:-600} java -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/mcmeta -workers ${W:-6} -deadlock -config $2 ${@:3} $1 2>&1 | grep -vE "^Warn|^\(Use|^Running|^TLC2|^Starting|^Sem|^Parsing|^Progress" | head -${L:-30}
