#!/bin/bash
cd "$(dirname "$0")" && for f in p*.py; do PYTHONDONTWRITEBYTECODE=1 python3 $f; done; python3 build.py
