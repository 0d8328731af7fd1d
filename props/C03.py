"""Ring buffer: keeps the newest elements in order, evicting exactly the oldest."""
from .queue import tasks
TASKS = tasks('ringbuf')
BOUNDED = 'record mode with elements wider than one byte; statically sized queues through the macros'
HARNESS = {'src': 'h_C03.c', 'what': 'random operation histories of the flat, record and macro interfaces against a list model', 'bound': 'capacity <= 64 flat / 512 record, <= 60 operations per history, esize <= 16'}
