"""warms the Go build cache; the checks build what they need themselves"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from run import goenv
for race in ([], ['-race']):
    e = goenv()
    if race:
        e['CGO_ENABLED'] = '1'
    subprocess.run(['go', 'build', '-tags', 'verif', *race, '-o', '/dev/null', '.'], cwd=f'{V}/harness', env=e, timeout=1500)
