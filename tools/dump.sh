#!/bin/bash
# dump the MIR of /repo's current tree (development aid): dump.sh OUTDIR
mkdir -p "$1" && cd /verif && python3 -c "from sa import mir; mir.extract('$1')"
