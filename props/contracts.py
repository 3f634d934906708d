"""Contracts used at call sites (the callee is proved against the same contract elsewhere)."""
from pyvc import text
from pyvc.core import CTX, SymInt

T = "dashlivesim.dashlib.timeformatconversions"


def _iso(orig):
    """requires n >= 0 (an integer); ensures the result is an xs:duration that denotes n seconds and nothing else is
    changed.  Proved of the body by check C21, harness 'duration'."""
    def seconds_to_iso_duration(nr_secs):
        if not isinstance(nr_secs, SymInt):
            return orig(nr_secs)
        CTX.harness.check("precondition of seconds_to_iso_duration: the duration is not negative", nr_secs >= 0)
        return text.hole("iso", nr_secs)
    return seconds_to_iso_duration


ISO = {T: {"seconds_to_iso_duration": _iso}}
USES_ISO = ["timeformatconversions.seconds_to_iso_duration (proved in C21)"]
