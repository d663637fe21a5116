#!/bin/bash
# tlc.sh MEM args...: TLC with the CommunityModules
mem=$1; shift
exec java -Xmx$mem -XX:+UseParallelGC -XX:ParallelGCThreads=4 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
