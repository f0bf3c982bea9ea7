"""C08: mesh connectivity."""
from .. import mesh
TECHNIQUE = "TLA+ semantics of conforming meshes (Mesh.tla); records of the real Gmsh/Mesh classes on generated mesh files decided by TLC"
NOTE = "Every connectivity array, face tag and neighbour face/vertex id of every generated mesh is compared by TLC with the meaning of the mesh (elements as vertex sets, reference elements). The sort-based face matching is model checked for all small triangle sets. Sampling of meshes is seeded random."


def run(ctx):
    ctx.model_check("MC_Mesh", "MC_Mesh_t.cfg" if ctx.thorough else "MC_Mesh_q.cfg")
    k = 12 if ctx.thorough else 1
    mesh.run(ctx, {0: (220 * k, 0, 0), 1: (150 * k, 0, 0), 2: (220 * k, 0, 0), 3: (150 * k, 0, 0)}, ("C08",), "mesh")
