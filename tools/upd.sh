#!/bin/bash
# regenerate properties.jsonl, levels, MANIFEST.json and known_findings.json
cd "$(dirname "$0")/.." && python3 tools/make_properties.py && python3 tools/levels.py && python3 tools/make_manifest.py && python3 tools/make_known.py && python3 tools/make_design.py

