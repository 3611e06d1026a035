#!/bin/bash
# builds the AST printer; every check also builds it by itself when it is missing
set -e
cd "$(dirname "$0")/vc"
python3-vt -c "import extract; print(extract.plugin())"
