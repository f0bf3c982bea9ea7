"""Runs the unmodified EDGEpre without its plots.  usage: edgepre.py <script> <type> <degree> <out dir> <sub-cell operators: 0/1>
Without the sub-cell operators only the files below dg are meaningful."""
import importlib, os, runpy, sys


def main():
    script, ty, deg, out = sys.argv[1:5]
    for p in ("dg.basis", "sc.grid"):
        for t in ("Line", "Quad", "Tria", "Hex", "Tet"):
            m = importlib.import_module("edge_pre." + p + "." + t)
            if hasattr(m, "plot"):
                m.plot = lambda *a: None
    importlib.import_module("edge_pre.io.Matrices").sparsity = lambda *a: None
    if sys.argv[5] == "0":
        import sympy
        m = importlib.import_module("edge_pre.sc.ops.Project")
        m.scatter = m.gather = lambda *a: sympy.zeros(1, 1)
        for t in ("Quad", "Tria", "Hex", "Tet"):
            importlib.import_module("edge_pre.sc.grid." + t).intSfDg = lambda *a: ([[]] * 6, [[]] * 6)
    os.makedirs(out, exist_ok=True)
    xml = os.path.join(out, ty + deg + ".xml")
    with open(xml, "w") as f:
        f.write("<edge_pre><degs><deg>%s</deg></degs><types><type>%s</type></types><out_dirs><dg>%s/dg</dg><subcell>%s/sc</subcell><plots>%s/pl</plots></out_dirs></edge_pre>" % (deg, ty, out, out, out))
    sys.argv = [script, "-x", xml]
    runpy.run_path(script, run_name="__main__")


if __name__ == "__main__":
    main()
