#!/bin/bash
# run.sh C01 quick|thorough   |   run.sh C01 --replay FILE
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONPATH
id=$1; shift
case "$1" in
  quick|thorough) tier=$1; shift; set -- --tier "$tier" "$@";;
esac
exec /opt/venv/bin/python -m vf.main "$id" "$@"
