#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = {'C01': 'checks_run', 'C02': 'checks_run', 'C11': 'checks_run', 'C14': 'checks_run', 'C15': 'checks_run',
           'C04': 'checks_repro', 'C05': 'checks_repro', 'C09': 'checks_world', 'C10': 'checks_world',
           'C06': 'checks_io', 'C07': 'checks_io', 'C08': 'checks_io', 'C03': 'checks_out', 'C12': 'checks_list', 'C16': 'checks_ic', 'C13': 'checks_lib', 'C17': 'checks_conf', 'C18': 'checks_init', 'C19': 'checks_em'}

def main():
    cid = sys.argv[1]
    mod = __import__(MODULES[cid])
    return core.main(getattr(mod, cid)(), sys.argv[2:])

if __name__ == '__main__':
    sys.exit(main())
