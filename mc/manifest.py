import json,importlib,sys,ast
sys.path.insert(0,"/verif")
PY="/opt/venv/bin/python"
tech={
"C01":"explicit-state exploration of the real generator: every schema of a bounded universe x every script of random draws (all extremes, every single deviation), outputs checked with an independent reference validator and d42's own",
"C02":"explicit-state enumeration of schema x value pairs, validator verdict compared with an independent reference semantics in every state",
"C03":"explicit-state enumeration of schema x value pairs; every reported error checked for truth at its path and for completeness against the reference semantics",
"C04":"explicit-state enumeration of schema x substituted value x tested value; reference model of substitution",
"C05":"explicit-state enumeration of schema x substituted value x tested value; verdicts of the substituted and the original schema compared in every state",
"C06":"explicit-state enumeration of schemas built by all declaration chains; represent -> eval round trip, result compared structurally and again represented; fresh interpreters for determinism",
"C07":"explicit-state exploration of operation sequences over a pool of live objects, full snapshot of every object before and after each transition",
"C08":"explicit-state enumeration of schema x arbitrary object placements; every outcome must be a result whose errors render",
"C09":"exhaustive enumeration of a pattern grammar x exploration of all draw scripts of the real generator",
"C10":"explicit-state exploration of all declaration call sequences up to a depth; acceptance and self-consistency decided by a reference model",
"C11":"exhaustive exploration of all orders (interleavings) of refinement calls, outcome compared between all orders",
"C12":"explicit-state enumeration of schema x substituted object transitions; allowed outcomes, usability under draw-script exploration, idempotence",
"C13":"explicit-state enumeration of combinator applications; verdict on every value compared with the reference combination of the parts' verdicts",
"C14":"explicit-state enumeration of native values, their one-step changes and draw scripts",
"C15":"explicit-state enumeration of pairs and triples of schemas, each one-step change; reference structural equality",
"C16":"explicit-state enumeration of wrapping contexts; lock-step comparison of the wrapped with the unwrapped schema under every operation and draw script",
"C17":"exhaustive enumeration of interpreter configurations (hash seeds, optimisation, locale) x histories of operations; trace equality",
"C18":"explicit-state enumeration of nested mappings x key orders x optional placements x separators",
"C19":"exhaustive enumeration of program sequences over a statement grammar; AST oracle",
}
checks=[]
for i in range(1,20):
    c="C%02d"%i
    m=importlib.import_module("mc.checks."+c.lower())
    note="Exhaustive within: "+m.BOUNDS["quick"]+"; thorough: "+m.BOUNDS["thorough"]
    if getattr(m,"ASSUMPTIONS",None): note+=". Assumes: "+"; ".join(m.ASSUMPTIONS)
    checks.append(dict(property=c,quick_cmd=f"{PY} -m mc.run {c} --tier quick",thorough_cmd=f"{PY} -m mc.run {c} --tier thorough",
      technique=tech[c],level="model_checking",level_note=note))
json.dump(dict(version=1,setup_cmd=f"{PY} -c 'import mc.run, mc.terms, mc.universe'",checks=checks,not_applicable=[]),open("/verif/MANIFEST.json","w"),indent=1)
