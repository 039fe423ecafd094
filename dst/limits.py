"""A small computer: bounded memory and a bounded number of loop iterations."""
import os
import resource
import sys

from . import core, sched

MON = sys.monitoring
PAGE = os.sysconf('SC_PAGE_SIZE')


class Loops:
    """with Loops(n): loops of the code under test that go round more than n times
    in all, in whatever thread, end with core.Budget"""
    TOOL = 1

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(sched.base()):
            return MON.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise core.Budget(f'{self.n} loop iterations in {os.path.basename(code.co_filename)}:{code.co_qualname}')

    def __enter__(self):
        MON.use_tool_id(self.TOOL, 'dst-loops')
        MON.register_callback(self.TOOL, MON.events.JUMP, self._jump)
        MON.set_events(self.TOOL, MON.events.JUMP)
        return self

    def __exit__(self, *_):
        MON.set_events(self.TOOL, 0)
        MON.register_callback(self.TOOL, MON.events.JUMP, None)
        MON.free_tool_id(self.TOOL)
        return False


class Small(Loops):
    """... and so much memory more than the process has can be allocated, and what asks for
    more gets MemoryError"""
    TOOL = 3

    def __init__(self, steps, memory=1 << 28):
        super().__init__(steps)
        self.memory = memory

    def __enter__(self):
        super().__enter__()
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        with open('/proc/self/statm') as f:
            have = int(f.read().split()[0]) * PAGE
        resource.setrlimit(resource.RLIMIT_AS, (have + self.memory, self.old[1]))
        return self

    def __exit__(self, *_):
        resource.setrlimit(resource.RLIMIT_AS, self.old)
        return super().__exit__(*_)
