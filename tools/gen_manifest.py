#!/usr/bin/env python3
"""Derives MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)["id"]
            if p in PROPS:
                c = PROPS[p]
                checks.append({
                    "property": p,
                    "quick_cmd": "python3 tools/vrun.py " + p,
                    "thorough_cmd": "python3 tools/vrun.py " + p,
                    "technique": c["technique"],
                    "level": c.get("level", "exploration"),
                    "level_note": c["note"],
                })
            else:
                na.append({"property": p, "reason": "check under construction"})
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "none", "enable": "nothing to enable: the checks observe the public interface of the unmodified sources "
                  "(link-time wrapping and interposition live in /verif/harness)", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
