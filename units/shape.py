from _common import *
import _meta, build, visit, whole, top, prep
# what a build returns (unit whole: built) has the shape invariant the queries ask for (unit krates: wf)
SPEC = whole.SPEC + top.SHAPE
LEM = prep.pick(top.LEM, "built_shape")
UNITS = [Unit("shape", ["C11", "C12", "C13"], prelude=whole.UNITS[0].prelude, types=whole.TYPES, mods=dict(_meta.MODS), spec=SPEC, lemmas=LEM, fns=[visit.FF["DepKind::eq"]])]
