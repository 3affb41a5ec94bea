"""Known findings identified by a call site: known/sites.json maps property -> [{"site", "what"}]."""
import json, os
from .build import VERIF

_d = None


def sites(prop):
    global _d
    if _d is None:
        p = os.path.join(VERIF, "known", "sites.json")
        _d = json.load(open(p)) if os.path.exists(p) else {}
    return _d.get(prop, [])


def matches(prop, site):
    return any(x["site"] == site for x in sites(prop))
