"""Runs one harness against the real package with concrete inputs (stdin: spec)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    spec = json.load(sys.stdin)
    sys.path.insert(0, os.environ['VF_BUILD'])
    sys.path.append(os.path.dirname(HERE))
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import batoid
    assert os.path.realpath(batoid.__file__).startswith(os.path.realpath(os.environ['VF_BUILD'])), batoid.__file__
    from vlib import harness
    h = harness.find(spec['check'], spec['harness'])
    print('RESULT ' + json.dumps(harness.run_real(h, spec['cfg'], spec['env'], batoid, spec.get('known', []))), flush=True)


main()
