"""Simulation kernel of the DOLFINx stand-in.

Every call that can fail or wait in a real deployment passes point(site, ...). With no hook
installed it does nothing. The hook decides, from the case being executed, whether to raise,
to corrupt, or to hand control to another simulated thread or rank.
"""
hook = None
after_hook = None
numbering = 0  # seed of the dof and vertex numberings the stand-in hands out
version = "0.7.2"


class SimUnsupported(NotImplementedError):
    """The stand-in lacks something the code asked for (an error of the check, not of the code)."""


def point(site, **info):
    if hook is not None:
        return hook(site, info)
    return None


class SimComm:
    """A communicator of one rank (or, in the mesh world, of the simulated ranks)."""

    rank = 0
    size = 1

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def allreduce(self, value, op=None):
        point("comm.allreduce", value=value)
        return value

    def barrier(self):
        point("comm.barrier")

    Barrier = barrier

    def bcast(self, value, root=0):
        point("comm.bcast")
        return value
