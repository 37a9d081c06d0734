"""Offline sanity check of what the checks need: the simulator compiles, /repo imports."""
import os
import tempfile

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")


def main():
    from dst import csim_build, net  # noqa: F401
    with tempfile.TemporaryDirectory() as d:
        csim_build.prepare(d)
    print("ready")


main()
