"""C09: periodic boundaries."""
from .. import mesh
TECHNIQUE = "TLA+ semantics of periodic boxes (Mesh.tla, MeshRec.tla); records of the real Mesh class on generated periodic mesh files decided by TLC"
NOTE = "Pairing, both-sided adjacency, owner order, normals and neighbour ids of every periodic face of every generated box are decided by TLC; all other faces have to keep their adjacency. Boxes are seeded random."


def run(ctx):
    k = 12 if ctx.thorough else 1
    mesh.run(ctx, {0: (0, 160 * k, 0), 1: (0, 130 * k, 0), 2: (0, 130 * k, 0), 3: (0, 130 * k, 0)}, ("C09",), "periodic mesh")
    ctx.assumptions += ["neighbour face ids are only queried where two elements share at most one face (at least three elements between periodic boundaries)"]
