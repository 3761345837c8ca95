#!/usr/bin/env python3
"""Builds the harness and the extractor once (the checks rebuild whatever /repo's tree changes)."""
import check, deduce
hx, hooks, err = check.build_harness()
print('harness:', hx, err)
ext, err = deduce.build_extractor(check.V, check.TGT)
print('extractor:', ext, err)
