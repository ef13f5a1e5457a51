"""Property id -> (module of mc.checks, needs the compiled code)."""

import importlib

CHECKS = {
    "C01": ("solve", True),
    "C02": ("solve", True),
    "C03": ("solve", True),
    "C04": ("vectors", True),
    "C05": ("paths", True),
    "C06": ("paths", True),
    "C07": ("guards", True),
    "C08": ("guards", True),
    "C09": ("guards", True),
    "C10": ("budget", True),
    "C11": ("contract", True),
    "C12": ("history", True),
    "C13": ("schedule", True),
    "C14": ("limits", True),
    "C15": ("limits", False),
    "C16": ("symmetry", True),
    "C17": ("history", True),
    "C18": ("contract", True),
    "C19": ("geometry", True),
    "C20": ("geometry", True),
    "C21": ("geometry", True),
    "C22": ("geometry", True),
    "C23": ("geometry", True),
    "C24": ("report", False),
    "C25": ("report", False),
    "C26": ("budget", True),
    "C27": ("auxiliary", True),
    "C28": ("contract", True),
}


def load(module):
    return importlib.import_module(f"mc.checks.{module}")
