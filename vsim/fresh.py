"""Answers one request in this real process, with the ordinary import of kerrgeopy."""
from . import env
import importlib
import json
import pickle
import sys

sys.path.insert(0, env.REPO)


class Plain:
    def __init__(self):
        self.root = importlib.import_module("kerrgeopy")

    def mod(self, name):
        return importlib.import_module("kerrgeopy." + name)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False


if __name__ == "__main__":
    text = sys.stdin.read()
    plain = Plain()
    from . import ops  # the import above came first: this process uses the ordinary modules

    d, q = json.loads(text)
    w = ops.World(d, plain)
    sys.stdout.buffer.write(pickle.dumps(w.ask(q)))
