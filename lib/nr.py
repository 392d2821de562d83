"""Helpers around nrpy's global registries (imported inside forked subs only)."""
import copy
import importlib

_SNAP = None


def _dicts():
    import nrpy.c_function as cfc
    import nrpy.finite_difference as fin
    import nrpy.grid as gri
    import nrpy.params as par

    return [par.glb_params_dict, par.glb_code_params_dict, par.glb_extras_dict, gri.glb_gridfcs_dict,
            cfc.CFunction_dict, fin.FDFunctions_dict]


def snapshot():
    global _SNAP
    import nrpy.c_codegen  # noqa: registers core parameters
    import nrpy.reference_metric  # noqa
    import nrpy.indexedexp  # noqa

    _SNAP = [copy.deepcopy(dict(d)) for d in _dicts()]


def reset(infrastructure=None):
    """Back to the state right after importing the core modules."""
    if _SNAP is None:
        snapshot()
    for d, s in zip(_dicts(), _SNAP):
        d.clear()
        d.update(copy.deepcopy(s))
    if infrastructure:
        import nrpy.params as par

        par.set_parval_from_str("Infrastructure", infrastructure)
