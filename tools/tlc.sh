#!/bin/bash
# tlc.sh MODULE CFG OUT: runs TLC by hand from spec/
cd "$(dirname "$0")/../spec"
rm -f "$3"
OUT=$3 exec java -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Xss64m -XX:+UseParallelGC -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 8 -metadir /tmp/scratch/meta -config $2 $1.tla
