#!/bin/sh
# Nothing to build: parse every specification once, so that a broken installation shows up here.
cd "$(dirname "$0")/../spec" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f "/tmp/sany.$$"; exit 1; }
done
rm -f "/tmp/sany.$$"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import emc2, xarray, dask" >/dev/null && echo setup ok
