#!/bin/bash
# Builds the extractor and warms the model cache. The checks build both themselves when they are missing.
set -e
cd "$(dirname "$0")"
bash vx/build.sh
python3 -c "from vlib import model; m = model.load(); print('model:', len(m.fns), 'functions in', len(m.tus), 'translation units')"
