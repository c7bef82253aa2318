#!/bin/bash
# developer helper: vc/run.sh CONTRACT [MODE] [OPTS]
cd "$(dirname "$0")/.."
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -m vc.worker "$1" "${2:-both}" /tmp/vc_out.json "${3:-{\}}" && python3 -m json.tool /tmp/vc_out.json
