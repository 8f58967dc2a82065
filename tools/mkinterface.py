#!/usr/bin/env python3
"""Development tool: prints the JSON interface and storage layout found in the code (engine/interface.json was written with it and
reviewed against the documentation; the checks only ever compare with the committed file)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import run


def main():
    import props_json
    print(json.dumps(props_json.interface()[0], indent=1))


run.main(main)
