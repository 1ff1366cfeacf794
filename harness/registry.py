"""Which function decides which property."""
from rules import RULES, TRUST
from pipeline_checks import *
from estim_checks import *
from fit_checks import *
from session_checks import *
from arrh_checks import *
from inputs_checks import *
CHECKS = {'C%02d' % i: (globals()['c%02d' % i], 'model_checking', RULES['C%02d' % i][1], TRUST) for i in range(1, 23)}
