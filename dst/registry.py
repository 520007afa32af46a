"""Property id -> check."""
import importlib

MODULES = {"C01": "p_ctl", "C02": "p_ctl", "C03": "p_ctl", "C04": "p_ctl", "C05": "p_ctl", "C06": "p_import", "C07": "p_update", "C08": "p_simulation", "C09": "p_patch", "C10": "p_random", "C11": "p_lcos", "C12": "p_optics", "C13": "p_profile", "C14": "p_history", "C15": "p_precision", "C16": "p_fft", "C17": "p_threads", "C18": "p_repeat", "C19": "p_alias", "C20": "p_endtoend", "C21": "p_memory"}


def get(prop_id):
    mod = importlib.import_module("dst." + MODULES[prop_id])
    return mod.PROPS[prop_id]()
