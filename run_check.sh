#!/bin/bash
# ./run_check.sh C05 [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" && exec python3 -m vf.run "$@"
