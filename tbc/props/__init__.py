from .common import PROPS
from . import instr, curves, state, rules, numeric, refusal, value
