"""Which machinery decides which property."""
import cli_check, fd_check, mem_check, probes

LEVEL = {}


def run(rep, work, prop, tier, seed):
    if prop in cli_check.FIELDS:
        cli_check.check(rep, work, prop, tier, seed)
    elif prop in mem_check.CONF:
        mem_check.check(rep, work, prop, tier, seed)
    elif prop == "C24":
        fd_check.check(rep, work, prop, tier, seed)
    else:
        raise SystemExit("no check for " + prop)
    probes.run(rep, work, prop)
