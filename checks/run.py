#!/usr/bin/env python3-vt
"""python3-vt checks/run.py PROPERTY [--tier quick|thorough]"""
import importlib
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import common


def main():
    prop = sys.argv[1]
    tier = common.tier()
    os.makedirs(common.ROOT + '/build', exist_ok=True)
    import configs
    if prop in configs.PROPS:
        import engine_check
        rep = common.Report(prop, 'translation_validation')
        b = engine_check.prepare(prop)
        try:
            cfgs = configs.configs(prop, tier, common.SEED)
            import twins
            return engine_check.run(prop, configs.TEXT, cfgs, rep, tier, 420 if tier == 'quick' else 7200, configs.bounds(prop, cfgs), twin=twins.twin)
        finally:
            shutil.rmtree(b, ignore_errors=True)
    mod = importlib.import_module('check_' + prop)
    return mod.main(tier, common.SEED)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
