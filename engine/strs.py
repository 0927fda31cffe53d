"""Strings and C conversions: uninterpreted."""
from .val import *
def member(E, st, nm, lv, a): raise Oops('string::' + nm)
def ctor(E, st, a): raise Oops('string')
FUN = {}
