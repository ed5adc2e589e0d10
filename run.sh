#!/bin/bash
# usage: run.sh <property-id> [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m vf "$@"
