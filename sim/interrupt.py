"""Raise an error at a chosen point inside the edits of the code under test."""
import os
import sys

from sim.core import REPO

# the operations during which an error may strike
TARGETS = {
    "commit", "atomic", "delete_lines", "insert_before", "insert_after", "insert_after_child", "replace_lines", "replace_children", "replace_all_children",
    "append_line", "prepend_line", "insert", "__delitem__", "pop", "delete", "append_to_family", "re_sub", "replace", "delete_children_matching", "append",
}
ERRORS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError}


def _prime():
    """The interpreter only reports byte codes once a frame has asked for them before settrace()."""

    def call(frame, event, arg):
        frame.f_trace_opcodes = True
        return call

    def dummy():
        return 1

    sys.settrace(call)
    dummy()
    sys.settrace(None)


class Interrupter:
    """
    Context manager.  Counts the points (source lines, or byte codes) executed
    by the code under test within an edit, and raises `error` at point number
    `at` (None: only counts).
    """

    def __init__(self, at=None, error=MemoryError, opcodes=False, anything=False):
        self.prefix = os.path.join(os.path.realpath(REPO), "ciscoconfparse") + os.sep
        self.at, self.error, self.opcodes = at, error, opcodes
        self.anything = anything    # not only edits
        self.count = 0
        self.root = None
        self.where = None
        self.files = {}

    def _ours(self, filename):
        ours = self.files.get(filename)
        if ours is None:
            ours = self.files[filename] = os.path.realpath(filename).startswith(self.prefix)
        return ours

    def _call(self, frame, event, arg):
        if self.where is not None or not self._ours(frame.f_code.co_filename):
            return None
        if self.root is None:
            if not self.anything and frame.f_code.co_name not in TARGETS:
                return None
            self.root = frame
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "return":
            if frame is self.root:
                self.root = None
        elif event != "exception":
            self.count += 1
            if self.count == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                raise self.error("injected")
        return self._local

    def __enter__(self):
        if self.opcodes:
            _prime()
        sys.settrace(self._call)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        return False
