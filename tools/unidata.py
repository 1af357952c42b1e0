#!/usr/bin/env python3
"""Makes sim/unidata.cpp, the simulator's own tables of letter case, classes and decompositions, from
the Unicode data shipped with the project. check.py makes it anew from /repo; the committed file is
used when the project's data cannot be read.  usage: unidata.py [DATA_FILE] > sim/unidata.cpp"""
import glob, re, sys

TEMPLATE = """// Made by tools/unidata.py from %(name)s.
#include "unidata.hpp"
namespace sim::uni
{
    const CaseRow CASE_ROWS[] = {
%(case)s
    };
    const size_t CASE_ROW_COUNT = %(ncase)d;
    const PairRow PAIR_ROWS[] = {
%(pair)s
    };
    const size_t PAIR_ROW_COUNT = %(npair)d;
    const ClassRow CLASS_ROWS[] = {
%(classes)s
    };
    const size_t CLASS_ROW_COUNT = %(nclasses)d;
}
"""


def wrap(items, n=6):
    return ",\n".join(", ".join(items[i:i + n]) for i in range(0, len(items), n))


def generate(path):
    case, pairs, classes = [], [], []
    first = None

    with open(path, encoding="utf-8") as f:
        for line in f:
            p = line.rstrip("\n").split(";")
            if len(p) < 15:
                continue
            c = int(p[0], 16)
            if p[1].endswith(", First>"):
                first = c
                continue
            lo, first = (first, None) if p[1].endswith(", Last>") and first is not None else (c, None)
            if classes and classes[-1][1] + 1 == lo and classes[-1][2] == p[2]:
                classes[-1][1] = c
            else:
                classes.append([lo, c, p[2]])
            up, low = int(p[12] or p[0], 16), int(p[13] or p[0], 16)
            title = int(p[14], 16) if p[14] else up
            if (up, low, title) != (c, c, c):
                case.append((c, up, low, title))
            d = p[5].split()
            if len(d) == 2 and not p[5].startswith("<"):
                pairs.append((int(d[0], 16), int(d[1], 16), c))
    if len(case) < 1000 or len(pairs) < 500 or len(classes) < 1000:
        raise ValueError("not Unicode data: " + path)
    if len({x[:2] for x in pairs}) != len(pairs):
        raise ValueError("ambiguous pairs: " + path)
    row = lambda x: "{" + ",".join("0x%x" % v for v in x) + "}"
    return TEMPLATE % {"name": re.sub(r".*/", "", path),
                       "case": wrap([row(x) for x in sorted(case)]), "ncase": len(case),
                       "pair": wrap([row(x) for x in sorted(pairs)]), "npair": len(pairs),
                       "classes": wrap(["{0x%x,0x%x,\"%s\"}" % tuple(x) for x in classes]), "nclasses": len(classes)}


def shipped(repo):
    """The newest Unicode data in the repository."""
    files = glob.glob(repo + "/data/unicode/UnicodeData*.txt")
    return max(files, key=lambda f: [int(x) for x in re.findall(r"\d+", f[len(repo):])], default=None)


if __name__ == "__main__":
    sys.stdout.write(generate(sys.argv[1] if len(sys.argv) > 1 else shipped("/repo")))
