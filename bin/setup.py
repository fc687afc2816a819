#!/usr/bin/env python3
"""Nothing has to be built ahead: every check builds from /repo's tree. Shows that the tools are there."""
import subprocess
for c in (['cargo', '--version'], ['cargo', '+nightly', '--version'], ['cargo', '+nightly', 'miri', '--version']):
    subprocess.run(c, check=True)
