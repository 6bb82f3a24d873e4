from d_tri import *
from d_dev import *
from d_boot import *
from d_misc import *
from d_plot import *
from d_model import *
from d_more import *
from d_table import *
