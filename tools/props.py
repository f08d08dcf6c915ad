"""Writes properties.jsonl and MANIFEST.json from one table.  Run: /opt/venv/bin/python tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, F, M, P, N = "PyNite/Analysis.py", "PyNite/FEModel3D.py", "PyNite/Member3D.py", "PyNite/PhysMember.py", "PyNite/Node3D.py"
BZ, BY, FE, SP = "PyNite/BeamSegZ.py", "PyNite/BeamSegY.py", "PyNite/FixedEndReactions.py", "PyNite/Spring3D.py"
Q, PL, ME, MI = "PyNite/Quad3D.py", "PyNite/Plate3D.py", "PyNite/Mesh.py", "PyNite/MITC4.py"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), technique=technique, note=note))


prop("C01", "Support reactions balance the applied loads",
     "After any successful first-order analysis, the reported support reactions and support-spring forces of every load combination balance the factored applied loads in force and in moment about any point. "
     "This holds for members, springs, plates and quads, for every load type, with end releases and one-way elements and supports. "
     "The statics check the program prints reports these same sums.",
     ["inputs", "configurations"], "every stable model whose enforced displacements are at supported degrees of freedom (plate drilling: coplanar plates), every load combination",
     "The tests check a few reactions of textbook models; whether nothing applied gets lost on its way to the ground depends on every load type, direction, extent, element type, release and interior node in combination.",
     [A, F, M, FE, SP, PL, Q], [("reaction summation", A + ": _calc_reactions"), ("statics report", A + ": _check_statics"), ("fixed end reactions", FE), ("load vectors", F + ": FER, P"), ("sub-member loads", P + ": descritize")],
     "runtime monitor: equilibrium of recorded reactions against an independent integration of the applied loads", "random and hostile models; held on the executions observed")

prop("C02", "Frame displacements and reactions agree with beam theory",
     "For any stable first-order frame of members, springs and support springs, every reported nodal displacement and reaction agrees with the exact solution of Euler-Bernoulli beam theory. "
     "This covers arbitrary spatial orientation, auxiliary nodes, end releases, intermediate nodes, every member and nodal load type and direction, self-weight, and support settlements.",
     ["inputs", "configurations"], "every stable frame model and load combination",
     "The tests compare a handful of textbook frames; orientation conventions, releases, load directions and partial loads interact in ways those samples don't reach.",
     [F, A, M, P, FE, N], [("stiffness assembly", F + ": K"), ("transformation matrix", M + ": T"), ("static condensation", M + ": k, fer"), ("fixed end reactions", FE), ("partitioned solve", F + ": analyze, analyze_linear"), ("subdivision", P + ": descritize")],
     "runtime differential monitor: observed results against an independently formulated solver", "random spatial frames; held on the executions observed")

prop("C03", "Member end forces are right and every joint is in equilibrium",
     "The reported end forces of every member agree with beam theory, are the same in local and global form, and together with the loads on the member keep it in equilibrium. "
     "At every joint the end forces of the connected members and springs, the applied nodal loads and the reported reactions sum to zero.",
     ["inputs", "configurations"], "every stable first-order frame model and load combination",
     "The tests look at single end forces of symmetric examples; joint equilibrium must hold at every joint of every model, including members with intermediate nodes, releases and settlements.",
     [M, P, SP, A], [("local end forces", M + ": f, F, D, d"), ("physical member end forces", P + ": f"), ("spring forces", SP + ": f, F")],
     "runtime monitor: joint-equilibrium conservation plus differential oracle on end forces", "random spatial frames; held on the executions observed")

prop("C04", "Internal force diagrams follow from statics at every section",
     "At every point along every member the reported axial force, shears, torque and bending moments equal the resultant of everything acting on one side of that section. "
     "This holds across intermediate nodes, at and beside every load boundary, for every load direction and for every load combination, whatever order results are asked for in.",
     ["inputs", "histories"], "every stable first-order frame, every section, every order of queries",
     "Diagrams are piecewise polynomials whose pieces depend on all the loads together; the tests sample a few points of a few load patterns.",
     [M, P, BZ, BY], [("segmentation", M + ": _segment_member"), ("segment statics", BZ + ", " + BY + ": Shear, moment, axial, Torsion"), ("lookup", P + ": find_member")],
     "runtime differential monitor: queried diagrams against an independent left-sum", "random frames with hostile load layouts; held on the executions observed")

prop("C05", "Deflected shapes are exact along the whole member",
     "At every point along every active member the reported deflection equals the exact beam-theory deflection, joins the displacements of the end nodes, and is continuous across load boundaries and intermediate nodes. "
     "Relative deflection is the deflection measured from the chord between the member's ends.",
     ["inputs"], "every stable first-order frame whose queried member has no translational end release, every section and direction",
     "The tests check mid-span deflections of a few beams; the shape is integrated piece by piece, so errors show only for particular sequences of loads, releases and nodes.",
     [M, P, BZ, BY], [("slope and deflection integration", BZ + ", " + BY + ": slope, deflection, AxialDeflection"), ("start slope", M + ": _segment_member"), ("relative deflection", P + ": rel_deflection")],
     "runtime differential monitor: queried deflections against an independent solver with a node at each station", "random frames; held on the executions observed")

# ---- more properties are appended by the sections below
exec(open(os.path.join(V, "tools", "props_more.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(V, "rv", "checks", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="./check --self-test", checks=checks, not_applicable=na,
             notes="Runtime monitoring of the real code only; no hooks in /repo (all monitors observe the public API). Known findings and fixes are listed in known_findings.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")


NA = {}
main()
