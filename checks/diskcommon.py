"""Shared parts of the disk checks."""
import errno
import os
import shutil
import tempfile

from sim import disk, gen, model
from sim.core import Violation, jdump

ENCODINGS = [None, None, "utf-8", "utf-8", "latin-1", "ascii", "utf-16", "cp1252", "utf-8-sig"]
NEWLINES = ["\n", "\n", "\r\n", "\r"]
# text which some ways of splitting lines take for line ends
ODD = [" form\x0cfeed", " next\x85line", " sep\u2028arator", " vt\x0btab", "unit\x1fsep", " gs\x1dx"]


class Scratch:
    """A scratch directory, made the working directory."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="vp-disk-")
        os.chdir(self.path)
        return self.path

    def __exit__(self, *args):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def encodable(text, encoding):
    try:
        text.encode(encoding or "utf-8")
    except UnicodeEncodeError:
        return False
    return True


def file_lines(text, squeeze):
    """The lines of a file: what the documentation calls its configuration lines."""
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    return [ln for ln in lines if ln] if squeeze else lines


def texts_and_families(parse):
    """The configuration without line numbers (which a commit may change)."""
    return [{k: v for k, v in row.items() if k != "linenum"} for row in model.real_graph(parse)]


def read_faults(rng, size):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.3:
            out.append({"on": "open", "n": rng.choice([1, 1, 1, 2]), "errno": rng.choice(disk.OPEN_ERRORS)})
        else:
            at = rng.randint(0, max(0, size)) if rng.random() < 0.8 else rng.choice([0, max(0, size - 1), size])
            out.append({"on": "read", "at": at, "errno": rng.choice(disk.READ_ERRORS)})
    return out


def is_oserror(exc):
    return isinstance(exc, OSError)


__all__ = ["ENCODINGS", "NEWLINES", "ODD", "Scratch", "encodable", "file_lines", "texts_and_families", "read_faults", "is_oserror", "errno", "gen", "jdump", "Violation"]
