#!/usr/bin/env python3
"""developer aid: print calls, assignments and branch conditions of a function as the analyser sees them"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vt.prog import Program, Sym

import builtins
import re
SKIP = re.compile(r"__range|__begin|__end|std::get obj|__normal_iterator::|_Rb_tree\w*iterator::|std::(set|map|vector)::(begin|end) obj|new std::allocator|new std::less|operator!= obj=- args=\['iter|new std::basic_string|Log::|LibFdb5::instance|Library::debug|Voidify|basic_ostream|operator<< obj|DebugFlag|CodeLocation")


def print(s):
    if not SKIP.search(s):
        s = re.sub(r"(const )?std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", s)
        builtins.print(s[:240])


p = Program()
s = Sym(p)
for q in sys.argv[1:]:
    fs = p.byq.get(q) or [f for f in p.fns.values() if q in f.id]
    for f in fs:
        print(f"== {f.id} {f.loc()}")
        for i, x in enumerate(f.n):
            if x[0] == "call":
                o = f.obj(i)
                print(f"  {x[1]:5} call {x[2]['q']}{'*' if x[2]['v'] else ''} obj={s.r(f, o) if o is not None else '-'} args={[s.r(f, a) for a in f.args(i)]}")
            elif x[0] == "new":
                print(f"  {x[1]:5} new {x[2]['q']} {[s.r(f, a) for a in f.args(i)]}")
            elif x[0] == "assign" or x[0] == "un" and x[2] in ("++", "--", "p++", "p--"):
                print(f"  {x[1]:5} assign {s.r(f, x[3][0])} {x[2]} {s.r(f, x[3][1]) if len(x[3]) > 1 else ''}")
            elif x[0] in ("return", "throw") and x[3]:
                print(f"  {x[1]:5} {x[0]} {s.r(f, x[3][0])}")
            elif x[0] == "var" and x[3]:
                print(f"  {x[1]:5} var {x[2]['n']}: {x[2]['t']} = {s.r(f, x[3][0])}")
        for b, (el, su, te, la, nr) in f.blocks.items():
            if te and te[1] >= 0:
                print(f"  {te[2]:5} {te[0]} {s.formula(f, te[1])}")
