"""All properties and, for each, the machinery that decides it. lib/gen.py writes
properties.jsonl and MANIFEST.json from this file."""
CHECKS = {}
RT = "repos/plywood/src/runtime/ply-runtime/"
S = "repos/plywood/src/"

def prop(pid, title, statement, over, quant, why, files, mech, level=None, tech=None, note=None, rule=None,
         parts=None, assumptions=(), na=None):
    CHECKS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                       level=level, tech=tech, note=note, rule=rule, parts=parts, assumptions=list(assumptions), na=na)

def part(name, **kw):
    d = dict(name=name, srcs=[name + ".cpp"])
    d.update(kw)
    return d

EXH = "stateless exhaustive exploration of the real code (every choice sequence within bounds) against a reference model"
TRUST = "Exhaustive within the stated bounds on the real code compiled with assertions and AddressSanitizer; nothing is claimed beyond the bounds. Trusts the compiler, the harness's reference model and the kernel."

exec(open(__file__.replace("checks.py", "props_containers.py")).read())
exec(open(__file__.replace("checks.py", "props_rest.py")).read())
