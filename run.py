#!/usr/bin/env python3
"""run.py <property-id> [quick|thorough] [--sub NAME] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
# import under the module name the property modules use
import engine  # noqa: E402

if __name__ == '__main__':
    try:
        rc = engine.main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
