"""Nothing is kept between runs: setup only shows that the toolchain is there."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
for cmd in (["go", "version"], ["java", "-version"], ["gcc", "--version"]):
    subprocess.run(cmd, env=vlib.goenv(), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
