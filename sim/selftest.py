"""setup: nothing to compile; checks that the simulator, the reference model and the code under test load and that a run repeats"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    for p in ("C01", "C06"):
        r = subprocess.run([sys.executable, "-m", "sim.check", p, "--runs", "60", "--no-evidence"], cwd=HERE, capture_output=True, text=True)
        if r.returncode not in (0, 1):
            print(r.stdout, r.stderr)
            return 1
    print("simulator ready")
    return 0


if __name__ == "__main__":
    sys.exit(main())
