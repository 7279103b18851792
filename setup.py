#!/usr/bin/env python3
"""Builds the executor; the checks build their harnesses from /repo's current tree themselves."""
import os, subprocess, sys
import check
here = os.path.dirname(os.path.abspath(__file__))
sys.exit(subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(here, 'symex'),
                        env=dict(check.env(), CARGO_TARGET_DIR=os.path.join(here, 'target/symex'))).returncode)
