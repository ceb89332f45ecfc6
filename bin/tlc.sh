#!/bin/sh
# t.sh Module cfg : run TLC by hand
cd /verif/spec && exec java -XX:+UseParallelGC -Xmx8g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -noGenerateSpecTE -deadlock -metadir /tmp/tlcmd -config $2 $1.tla
