"""setup_cmd: the tools the checks need are importable (nothing to build)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import yaml  # noqa: F401,E402
from sa import registry  # noqa: F401,E402
print("ok", len(registry.CHECKS), "checks")
