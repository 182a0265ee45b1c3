#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import main_for

REG = {
    'C01': 'conn:replies', 'C02': 'conn:ends', 'C03': 'conn:framing',
    'C04': 'csock:data', 'C05': 'csock:limit', 'C06': 'csock:setup',
    'C09': 'chain:chains', 'C10': 'traits:descriptors', 'C11': 'traits:sets',
    'C12': 'jsontext:roundtrip', 'C13': 'jsontext:accepted', 'C14': 'jsontext:roots',
    'C15': 'redirect:output', 'C16': 'redirect:owner',
    'C17': 'equation:solution', 'C18': 'equation:forms',
    'C19': 'diag:diagnostics', 'C20': 'staticmap:staticmap',
    'C21': 'staticmap:typelists', 'C22': 'marray:arrays', 'C23': 'tagged:tagged', 'C24': 'nodesock:addon', 'C25': 'wrappers:wrappers', 'C26': 'utility:utility',
    'C27': 'legacy:cells', 'C28': 'legacy:errors', 'C29': 'value:values', 'C30': 'object:objects',
    'C07': 'queue:fifo', 'C08': 'queue:order',
}


def run(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, fn = REG[pid].split(':')
    return main_for(pid, getattr(importlib.import_module('checks.' + mod), fn), tier, seed)


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run(pid, tier))
