"""Builds the IR fact extractor and warms the fact cache (the checks rebuild both when needed)."""
import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import core
core.tool_path()
for g in ("lib", "bin", "mod"):
    print(g, len(core.load((g,)).fns))
