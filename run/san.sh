#!/bin/bash
# dev helper: parse all modules
cd $(dirname $0)/../spec; for f in ${@:-*.tla}; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f 2>&1 | grep -iE -A4 "error|fatal|unknown|abort" | head -12; done
