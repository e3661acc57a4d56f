#!/bin/bash
# builds the extractor and extracts the current tree once (results are cached by digest in sa/cache)
cd "$(dirname "$0")" && python3 sa/lib/prep.py
