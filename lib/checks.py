"""Which parts decide which property."""
import importlib

CHECKS, NEED_BINARY, TECHNIQUE, NOTE = {}, set(), {}, {}
for _m in ("checks_fc", "checks_text", "checks_lit", "checks_core", "checks_cli", "checks_disc", "checks_run", "checks_opts", "checks_names", "checks_call", "checks_report", "checks_conf"):
    _mod = importlib.import_module(_m)
    CHECKS.update(_mod.CHECKS)
    NEED_BINARY |= _mod.NEED_BINARY
    for _i in _mod.CHECKS:
        TECHNIQUE[_i], NOTE[_i] = _mod.about(_i)
for _m in ("checks_text",):
    importlib.import_module(_m).add_to(CHECKS)


def probe(p):
    """Run the case of a known finding: "finding" if it fails as recorded, "fine" if it is right now."""
    return importlib.import_module(p["module"]).probe(p)
