"""The tree that is analysed (the override exists for trying changes in a scratch copy)."""
import os

ROOT = os.environ.get("MIMOSA_SA_ROOT", "/repo")
