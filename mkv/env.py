"""Import metaknowledge from /repo (MKV_REPO overrides it, for development only) and Hypothesis from the tools venv."""
import os
import sys
import warnings

REPO = os.environ.get('MKV_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

import metaknowledge as mk  # noqa: E402
import metaknowledge.citation  # noqa: E402
import metaknowledge.genders.nameGender as _ng  # noqa: E402
import metaknowledge.mkExceptions as exc  # noqa: E402,F401

assert os.path.realpath(mk.__file__).startswith(os.path.realpath(REPO) + os.sep), mk.__file__
mk.VERBOSE_MODE = False

# Stand-ins for the two data sets metaknowledge would download.
J9 = {'J THEOR BIOL': ['JOURNAL OF THEORETICAL BIOLOGY'], 'NATURE': ['NATURE'], 'SOC NETW': ['SOCIAL NETWORKS'],
      'PHYS REV A': ['PHYSICAL REVIEW A'], 'CELL': ['CELL', 'CELL JOURNAL']}
GENDERS = {'John': 'Male', 'Reid': 'Male', 'Adam': 'Male', 'Mary': 'Female', 'Jane': 'Female', 'Eve': 'Female',
           'Sam': 'Unknown'}


def reset():
    """Put the process-wide state back to a known value; run before every case."""
    mk.VERBOSE_MODE = False
    metaknowledge.citation.abbrevDict = {k: list(v) for k, v in J9.items()}
    _ng.mappingDict = dict(GENDERS)


reset()
