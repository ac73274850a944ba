"""Child process of C23: imports generated modules and fills them."""
import importlib
import json
import os
import random
import sys


def main():
    here, verif, repo, jobs = sys.argv[1:5]
    sys.path[:0] = [here, verif, repo]
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    from checks import c23
    out = []
    for job in json.load(open(jobs)):
        out.append(c23.child_job(job))
    sys.stdout.write('\n@@RESULT@@' + json.dumps(out))


main()
