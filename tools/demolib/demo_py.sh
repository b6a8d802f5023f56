#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 "$D/demo.py"
