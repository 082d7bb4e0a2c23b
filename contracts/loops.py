"""Shared: event loop stand-ins (C21 - C28)."""
from pv.lib import *
import sys, collections, heapq
from scarletio.core.event_loop.event_loop import EventThread
from scarletio.core.event_loop import handles as HANDLES
from scarletio.core.traps import future_states as FS
from scarletio.core.traps.future import Future

RETURN, RAISE, RETRIEVED, CANCELLING, CANCELLED, DESTROYED, SILENCED = (FS.FUTURE_STATE_RESULT_RETURN, FS.FUTURE_STATE_RESULT_RAISE, FS.FUTURE_STATE_RESULT_RAISE_RETRIEVED,
    FS.FUTURE_STATE_CANCELLING_SELF, FS.FUTURE_STATE_CANCELLED, FS.FUTURE_STATE_DESTROYED, FS.FUTURE_STATE_SILENCED)
DONE = FS.FUTURE_STATE_MASK_DONE
OUTCOME = RETURN | RAISE | CANCELLED | DESTROYED

def consistent(s):
    """no two outcomes at once"""
    k = s & OUTCOME
    if k not in (0, RETURN, RAISE, CANCELLED, CANCELLED | RAISE, DESTROYED): return False
    return not s & RETRIEVED or bool(s & RAISE)
STATES = [s for s in range(128) if consistent(s)]
PENDING = [s for s in STATES if not s & DONE]
FINISHED = [s for s in STATES if s & DONE]

# ---------------------------------------------------------------- native
class FakeLoop:
    """A single-threaded loop around the real scheduling methods; runs one handle at a time, virtual time"""
    running = True; current_task = None; should_run = True
    def __init__(self): self._ready = collections.deque(); self._scheduled = []; self.now = 0.0; self.log = []; self.steps = 0
    _schedule_callbacks = EventThread._schedule_callbacks
    call_soon = EventThread.call_soon
    create_future = EventThread.create_future
    create_task = EventThread.create_task
    ensure_future = EventThread.ensure_future
    call_at = EventThread.call_at
    call_at_weak = EventThread.call_at_weak
    def call_after(self, delay, callback, *args): return self.call_at(self.now + delay, callback, *args)
    def call_after_weak(self, delay, callback, *args): return self.call_at_weak(self.now + delay, callback, *args)
    call_soon_thread_safe = EventThread.call_soon
    def wake_up(self): pass
    def _maybe_start(self): return False
    def turn(self, n=None):
        """runs up to n ready handles"""
        k = 0
        while self._ready and (n is None or k < n):
            h = self._ready.popleft(); k += 1; self.steps += 1
            if not h.cancelled: h.func(*h.args)
            if k > 5000: raise RuntimeError('the loop never gets idle')
        return k
    def advance(self, by):
        self.now += by
        while self._scheduled and (self._scheduled[0].cancelled or self._scheduled[0].when <= self.now):
            h = heapq.heappop(self._scheduled)
            if not h.cancelled: self._ready.append(h)
