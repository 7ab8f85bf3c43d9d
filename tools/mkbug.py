"""Development aid: write /verif/seeded/<id>/ from a specification.

spec: dict(id, property, edits=[(file, old, new)], demo=python source, needs, breaks)
"""
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

SEED = pathlib.Path("/verif/seeded")


def write(spec):
    d = SEED / spec["id"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mkbug.", dir="/tmp"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(tmp / "r")], check=True)
        for f, old, new in spec["edits"]:
            p = tmp / "r" / f
            s = p.read_text()
            assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", str(tmp / "r"), "diff"], check=True, capture_output=True, text=True).stdout
        assert diff
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(spec["demo"].lstrip("\n"))
        (d / "demo.sh").write_text(
            "#!/bin/bash\n# exit 0: the property holds; 1: it is broken\n"
            "export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0 OMP_NUM_THREADS=1\n"
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        os.chmod(d / "demo.sh", 0o755)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]),
                  open(d / "meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(tmp)
