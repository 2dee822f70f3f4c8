__version__ = '1.1.0'
import hyvr.sim
from hyvr.sim import run
import hyvr.postprocess
