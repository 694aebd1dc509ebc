"""loads the real package from /repo (with the compiled simulator interface replaced by a stand-in that is
never driven here) so that classes, constants and function sources are the real ones"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
sys.path.insert(0, HERE)
SITE = "/opt/venv/lib/python3.12/site-packages"
if SITE not in sys.path:
    sys.path.append(SITE)
import kernel       # noqa
kernel.install()
sys.setrecursionlimit(20000)
