#!/bin/bash
# Nothing is kept between runs: every check builds what it needs.  This only shows that the
# toolchain is there and that the specification parses.
set -e
cd "$(dirname "$0")/../spec"
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/kmcv-sany.$$ 2>&1 || { cat /tmp/kmcv-sany.$$; exit 1; }
done
rm -f /tmp/kmcv-sany.$$
echo setup done
