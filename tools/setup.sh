#!/bin/bash
# Builds the MIR dumper and the dependencies' metadata, and dumps the current tree once.
cd "$(dirname "$0")/.." && exec ./check --dump
