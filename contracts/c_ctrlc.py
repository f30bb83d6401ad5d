"""Contracts of the interrupt module (ctrlc.c)."""
from lib import *


@contract('check_ctrlc')
def _(c):
    c.returns(c.globalvar('int_detected'))


@contract('handle_ctrlc')
def _(c):
    s = c.int('dummy')
    g = c.globalvar('int_detected')
    c.requires('signal number', and_(s > 0, s < 65))
    c.hint('dummy', [2, 1, 15])
    c.set(g, s)
