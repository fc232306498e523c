#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, kosbuild, scen_prog


def run():
    ck = common.Check("C05")
    scen_prog.check(ck, list(scen_prog.threads()))
    ck.finish()


if __name__ == "__main__":
    common.main(run)
