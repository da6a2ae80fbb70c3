def main(n):
    from root.config.main import RANK, SIZE, COMM, DISPATCHING, TREE
    r = COMM.allgather(RANK)
    from objects.CSCG._3d.master import MeshGenerator, SpaceInvoker, FormCaller
    mesh = MeshGenerator('crazy')([2, 2, n])
    space = SpaceInvoker('polynomials')([('Lobatto', 1), ('Lobatto', 1), ('Lobatto', 1)])
    f = FormCaller(mesh, space)('2-f', hybrid=False)
    return r, list(mesh.elements.indices), f.num.global_dofs
