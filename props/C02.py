"""FIFO: elements come out in the order they went in; nothing is lost, duplicated or corrupted."""
from .queue import tasks
TASKS = tasks('fifo')
BOUNDED = 'record mode with elements wider than one byte; statically sized queues through the macros'
HARNESS = {'src': 'h_C02.c', 'what': 'random operation histories of the flat, record and macro interfaces against a list model', 'bound': 'capacity <= 64 flat / 512 record, <= 60 operations per history, esize <= 16'}
