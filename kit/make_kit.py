#!/opt/venv/bin/python
"""Copy the demonstration kit into /verif/seeded/<id>/ folders: each must stand alone."""
import os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
for name in sys.argv[1:]:
    d = os.path.join(here, "..", "seeded", name)
    os.makedirs(d, exist_ok=True)
    for f in ("kit.py",):
        shutil.copy(os.path.join(here, f), d)
    src = open(os.path.join(here, "..", "sim", "data.py")).read()
    open(os.path.join(d, "kitdata.py"), "w").write(src)
    src = open(os.path.join(here, "..", "sim", "oracle.py")).read().replace("from . import data", "import kitdata as data")
    open(os.path.join(d, "kitoracle.py"), "w").write(src)
    demo = os.path.join(d, "demo.sh")
    if not os.path.exists(demo):
        open(demo, "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n')
    os.chmod(demo, 0o755)
