#!/bin/bash
# tlc.sh CFG MODULE [workers]: run TLC by hand in /verif/spec
cd /verif/spec; M=$(mktemp -d)
java -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir $M -noGenerateSpecTE -workers ${3:-8} -nowarning -config $1 $2
R=$?; rm -rf "$M"; exit $R
