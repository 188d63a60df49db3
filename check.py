#!/usr/bin/env python3-vt
"""python3-vt check.py <property id> [--tier quick|thorough]"""
import argparse
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from wsa.core import run_check
    return run_check(a.pid.upper(), a.tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    out = []
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
