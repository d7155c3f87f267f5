"""Shared scaffolding of the check modules."""
from vlib import world as _world


def offline_world():
    """A world without any reachable service: transaction building must not need one."""
    w = _world.World()
    down = _world.Fault('conn')
    for s in ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain.info'):
        for n in ('main', 'test'):
            w.faults[(s, n)] = lambda op, k: down
    w.fee_fault = 'conn'
    w.install()
    return w


def drain(w):
    """Harness errors inside the simulator surface as harness errors, never as verdicts."""
    from vlib.core import HarnessError
    if w.harness_errors:
        e = w.harness_errors[:]
        w.harness_errors.clear()
        raise HarnessError(e[0])
