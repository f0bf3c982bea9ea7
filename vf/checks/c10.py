"""C10: geometry."""
from .. import mesh
TECHNIQUE = "integer geometry in TLA+ (Mesh.tla); records of the real geometry kernels and Mesh class decided by TLC"
NOTE = "Exact integer oracles for volumes and centroids, integer square-root bounds (1/256 of a unit) for areas and in-diameters, fixed-point (1/1024) checks of unit length, orthogonality, orientation and handedness of normals and tangents, and the closing identity of each element. Meshes are seeded random."


def run(ctx):
    k = 12 if ctx.thorough else 1
    mesh.run(ctx, {0: (200 * k, 40 * k, 0), 1: (120 * k, 30 * k, 0), 2: (200 * k, 30 * k, 0), 3: (120 * k, 30 * k, 0)}, ("C10",), "geometry")
