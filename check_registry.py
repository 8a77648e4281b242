"""All registered checks and the texts the manifest needs."""
from lib.gens import PROPS
from lib.models import EXTRA
from lib import gens2, gens3, gens4, gens5, gens6, gens7
NOTE = ("Every scenario's complete log of the real code is a behaviour of the TLA+ specification (TLC decides); the input, "
        "configuration and schedule space is sampled from the seed plus small exhaustive families.  Trusted: the driver's log, TLC, "
        "fixed-point tolerances stated in the specification.")
NOTES = {}
MODELS = {"C08": ["MC_Hop"], "C11": ["MC_ChaosKey"], "C12": ["MC_Fod"], "C23": ["MC_Chaos"], "C06": ["MC_Walsh"], "C17": ["MC_Stream"],
          "C19": ["MC_Ssca"]}
for _p, _ms in EXTRA.items():
    MODELS[_p] = MODELS.get(_p, []) + [m[0] for m in _ms]
NOT_APPLICABLE = {}
