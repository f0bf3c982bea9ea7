"""C07: partitioning and element order."""
from .. import mesh
TECHNIQUE = "TLA+ relation over element keys (partition, inner/send, time group) in MeshRec.tla; records of the real Partition and Gmsh::reorder decided by TLC"
NOTE = "Partition ids and sizes, the order induced by the priorities and the mesh which results from the reordering (directly and via a written file) are decided by TLC for seeded random meshes, time groups and partition counts; METIS itself is trusted to return ids."


def run(ctx):
    k = 12 if ctx.thorough else 1
    mesh.run(ctx, {0: (0, 0, 160 * k), 1: (0, 0, 140 * k), 2: (0, 0, 140 * k), 3: (0, 0, 120 * k)}, ("C07",), "partitioning")
    ctx.assumptions += ["Gmsh::partition needs a gmsh plugin which is not part of the installed gmsh: not covered"]
