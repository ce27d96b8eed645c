"""Which world decides which property, and with what budget."""
from __future__ import annotations

import importlib

CASE_TIMEOUT = float(__import__("os").environ.get("SIM_TIMEOUT", "40"))

WORLDS = {
    **{p: "gmres_world" for p in ("C01", "C02", "C03", "C04", "C05", "C06")},
    **{p: "spacetime_world" for p in ("C07", "C08", "C09", "C10", "C12", "C13", "C14", "C17")},
    "C11": "driver_world",
    "C15": "mesh_world", "C16": "mesh_world",
}

QUICK_GMRES = {"C01": 4000, "C02": 6000, "C04": 3000}

# cases, wall cap for the search (s), shrink budget per reported kind (s)
BUDGETS = {
    "quick": {p: ((QUICK_GMRES.get(p, 2000), 80) if w == "gmres_world" else (250, 100) if p == "C14" else (400, 100))
              for p, w in WORLDS.items()},
    "thorough": {p: (40000, 700) for p in WORLDS},
}


def world_for(prop):
    return importlib.import_module(WORLDS[prop])


def budget(prop, tier):
    cases, cap = BUDGETS[tier][prop]
    return {"cases": cases, "cap": cap, "shrink": 40 if tier == "quick" else 120,
            "after_alarm": 8 if tier == "quick" else 60}
